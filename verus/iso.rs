// The nodes a parse leaves behind form a tree (an acyclic graph): no node reaches itself.
// Most nodes refer to older nodes only. The few that are given a younger child after they were made (a
// template's arguments, the class of a constructor, the target of a conversion, the name of a symbol) are not
// yet referred to from outside a small set of nodes when that happens. So every production is shown to keep
// any set of up to three nodes isolated: if nothing outside the set refers into it before, nothing does after,
// its nodes are unchanged, and the node the production returns is not in it.
use crate::lem::*;
use crate::demangler::QualifierMangleMode;
use crate::nodes::*;

pub struct W { pub a: int, pub b: int, pub c: int }
impl W { pub open spec fn has(self, h: int) -> bool { h == self.a || h == self.b || h == self.c } }
pub open spec fn w0() -> W { W { a: -1, b: -1, c: -1 } }
pub open spec fn w1(h: int) -> W { W { a: h, b: h, c: h } }

// the nodes that are given a child after they were made
pub open spec fn late(n: SNode) -> bool { n is Conv || n is Structor }

// a tree in which nothing outside `u`, not the back references either, refers to a node of `u`
#[verifier::opaque]
pub open spec fn clo(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, u: W) -> bool {
    &&& tree(a)
    &&& u.a < a.len() && u.b < a.len() && u.c < a.len()
    &&& forall|i: int| #![trigger fp[i]] 0 <= i < fp.len() ==> 0 <= fp[i] < a.len() && !u.has(fp[i])
    &&& forall|i: int| #![trigger nm[i]] 0 <= i < nm.len() ==> 0 <= nm[i] < a.len() && !u.has(nm[i]) && !late(a[nm[i]])
    &&& forall|i: int, h: int| 0 <= i < a.len() && #[trigger] kid(a[i], h) && u.has(h) ==> u.has(i)
}
// `b` is a later state of the table `a`: the nodes of `u` are as they were
#[verifier::opaque]
pub open spec fn fr(a: Seq<SNode>, b: Seq<SNode>, u: W) -> bool {
    &&& a.len() <= b.len()
    &&& forall|i: int| 0 <= i < a.len() && u.has(i) ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| 0 <= i < a.len() && late(#[trigger] b[i]) ==> late(a[i])
}
pub open spec fn cl(s: PS, u: W) -> bool { clo(s.nodes, s.fp, s.nm, u) }
// handle `r` exists and is not in `u`
pub open spec fn rin(a: Seq<SNode>, r: int, u: W) -> bool { 0 <= r < a.len() && !u.has(r) }
pub open spec fn rin_o(a: Seq<SNode>, r: Option<int>, u: W) -> bool { r matches Some(h) ==> rin(a, h, u) }
pub open spec fn rins(a: Seq<SNode>, s: Seq<int>, u: W) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> rin(a, s[i], u) }
pub open spec fn kf(a: Seq<SNode>, n: SNode, u: W) -> bool { forall|h: int| #[trigger] kid(n, h) ==> rin(a, h, u) }
// one production: from `s` to `t`
pub open spec fn step(s: PS, t: PS, u: W) -> bool { cl(t, u) && fr(s.nodes, t.nodes, u) }
pub open spec fn goes(s: PS, x: PR<int>, u: W) -> bool { x matches Ok(t) ==> step(s, t.0, u) && rin(t.0.nodes, t.1, u) }
pub open spec fn goesx<T>(s: PS, x: PR<T>, u: W) -> bool { x matches Ok(t) ==> step(s, t.0, u) }
// nothing refers to what the production returns
pub open spec fn fresh(s: PS, x: PR<int>) -> bool { x matches Ok(t) ==> t.1 >= s.nodes.len() && cl(t.0, w1(t.1)) }
// only the text changed
pub open spec fn st(s: PS, t: PS) -> bool { t.nodes == s.nodes && t.fp == s.fp && t.nm == s.nm }
pub open spec fn still<T>(s: PS, x: PR<T>) -> bool { x matches Ok(t) ==> st(s, t.0) }

// ---- the table

pub broadcast proof fn fr_refl(a: Seq<SNode>, u: W) ensures #[trigger] fr(a, a, u) { reveal(fr); }
pub broadcast proof fn fr_trans(a: Seq<SNode>, b: Seq<SNode>, c: Seq<SNode>, u: W)
    requires #[trigger] fr(a, b, u), #[trigger] fr(b, c, u)
    ensures fr(a, c, u)
{
    reveal(fr);
    assert forall|i: int| 0 <= i < a.len() && u.has(i) implies #[trigger] c[i] == a[i] by { assert(b[i] == a[i]); }
    assert forall|i: int| 0 <= i < a.len() && late(#[trigger] c[i]) implies late(a[i]) by { assert(late(b[i])); }
}
pub broadcast proof fn fr_len(a: Seq<SNode>, b: Seq<SNode>, u: W)
    requires #[trigger] fr(a, b, u)
    ensures a.len() <= b.len()
{ reveal(fr); }
pub proof fn fr_at(a: Seq<SNode>, b: Seq<SNode>, u: W, h: int)
    requires fr(a, b, u), 0 <= h < a.len()
    ensures u.has(h) ==> b[h] == a[h], late(b[h]) ==> late(a[h])
{ reveal(fr); assert(b[h] == b[h]); }
pub broadcast group group_fr { fr_refl, fr_trans, fr_len }

pub proof fn lemma_tree_kid(a: Seq<SNode>, i: int, h: int)
    requires tree(a), 0 <= i < a.len(), kid(a[i], h)
    ensures 0 <= h < a.len(), h != i
{ reveal(tree); }
pub proof fn lemma_tree_kid2(a: Seq<SNode>, i: int, h: int, k: int)
    requires tree(a), 0 <= i < a.len(), kid(a[i], h), kid(a[h], k)
    ensures k != i, h != i, 0 <= h < a.len(), 0 <= k < a.len()
{
    reveal(tree);
    let r = choose|r: Seq<nat>| ranked(a, r);
    assert(r[h] < r[i]);
    assert(r[k] < r[h]);
}
// closure, downwards: a child of a node outside is outside
pub proof fn clo_kid(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, u: W, i: int, h: int)
    requires clo(a, fp, nm, u), rin(a, i, u), kid(a[i], h)
    ensures rin(a, h, u)
{ reveal(clo); lemma_tree_kid(a, i, h); }
pub proof fn clo_tree(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, u: W)
    requires clo(a, fp, nm, u)
    ensures tree(a), u.a < a.len(), u.b < a.len(), u.c < a.len()
{ reveal(clo); }

// a node at the end of the table
pub proof fn tree_push(a: Seq<SNode>, n: SNode)
    requires tree(a), kf(a, n, w0())
    ensures tree(a.push(n))
{
    reveal(tree);
    let r = choose|r: Seq<nat>| ranked(a, r);
    let m = top(r, r.len() as int);
    let q = r.push(m + 1);
    let b = a.push(n);
    assert forall|i: int, h: int| 0 <= i < b.len() && #[trigger] kid(b[i], h) implies 0 <= h < b.len() && q[h] < q[i] by {
        if i < a.len() { assert(kid(a[i], h)); } else { assert(rin(a, h, w0())); top_ge(r, r.len() as int, h); }
    }
    assert(ranked(b, q));
}
pub open spec fn top(r: Seq<nat>, n: int) -> nat decreases n {
    if n <= 0 || n > r.len() { 0 } else if r[n - 1] > top(r, n - 1) { r[n - 1] } else { top(r, n - 1) }
}
pub proof fn top_ge(r: Seq<nat>, n: int, i: int)
    requires 0 <= i < n <= r.len()
    ensures r[i] <= top(r, n)
    decreases n
{ if i < n - 1 { top_ge(r, n - 1, i); } }
pub proof fn clo_push(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, n: SNode, u: W)
    requires clo(a, fp, nm, u), kf(a, n, u)
    ensures clo(a.push(n), fp, nm, u), fr(a, a.push(n), u), clo(a.push(n), fp, nm, w1(a.len() as int)), rin(a.push(n), a.len() as int, u)
{
    reveal(clo); reveal(fr);
    assert(kf(a, n, w0()));
    tree_push(a, n);
    let b = a.push(n);
    assert forall|i: int, h: int| 0 <= i < b.len() && #[trigger] kid(b[i], h) && u.has(h) implies u.has(i) by {
        if i < a.len() { assert(kid(a[i], h)); } else { assert(kid(n, h)); }
    }
    let w = w1(a.len() as int);
    assert forall|i: int, h: int| 0 <= i < b.len() && #[trigger] kid(b[i], h) && w.has(h) implies w.has(i) by {
        if i < a.len() { assert(kid(a[i], h)); lemma_tree_kid(a, i, h); } else { assert(kid(n, h)); assert(rin(a, h, u)); }
    }
    assert forall|i: int| #![trigger nm[i]] 0 <= i < nm.len() implies 0 <= nm[i] < b.len() && !u.has(nm[i]) && !late(b[nm[i]]) by { assert(b[nm[i]] == a[nm[i]]); }
}
// the same for a node that may refer into the set, and becomes part of it
pub proof fn clo_push_in(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, n: SNode, u: W, w: W)
    requires
        clo(a, fp, nm, u), kf(a, n, w0()), w.has(a.len() as int), u.a < 0 || w.has(u.a), u.b < 0 || w.has(u.b), u.c < 0 || w.has(u.c),
        w.a == a.len() || u.has(w.a), w.b == a.len() || u.has(w.b), w.c == a.len() || u.has(w.c)
    ensures clo(a.push(n), fp, nm, w)
{
    reveal(clo);
    tree_push(a, n);
    let b = a.push(n);
    assert forall|i: int, h: int| 0 <= i < b.len() && #[trigger] kid(b[i], h) && w.has(h) implies w.has(i) by {
        if i < a.len() { assert(kid(a[i], h)); lemma_tree_kid(a, i, h); } 
    }
    assert forall|i: int| #![trigger nm[i]] 0 <= i < nm.len() implies 0 <= nm[i] < b.len() && !w.has(nm[i]) && !late(b[nm[i]]) by { assert(b[nm[i]] == a[nm[i]]); }
}
// a node changed in place, its children the same or fewer
pub proof fn clo_upd(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, h: int, n: SNode, u: W)
    requires clo(a, fp, nm, u), rin(a, h, u), forall|k: int| #[trigger] kid(n, k) ==> kid(a[h], k), late(n) ==> late(a[h])
    ensures clo(a.update(h, n), fp, nm, u), fr(a, a.update(h, n), u)
{
    reveal(clo); reveal(fr); reveal(tree);
    let b = a.update(h, n);
    let r = choose|r: Seq<nat>| ranked(a, r);
    assert forall|i: int, k: int| 0 <= i < b.len() && #[trigger] kid(b[i], k) implies kid(a[i], k) by { }
    assert(ranked(b, r)) by {
        assert forall|i: int, k: int| 0 <= i < b.len() && #[trigger] kid(b[i], k) implies 0 <= k < b.len() && r[k] < r[i] by { assert(kid(a[i], k)); }
    }
}
// a node changed in place that is only referred to from within `w`: it may refer to anything outside of `w`
pub proof fn clo_raise(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, h: int, n: SNode, w: W, u: W)
    requires
        clo(a, fp, nm, u), clo(a, fp, nm, w), rin(a, h, u), w.has(h),
        forall|k: int| #[trigger] kid(n, k) ==> kid(a[h], k) || (rin(a, k, w) && rin(a, k, u)),
        late(n) ==> late(a[h])
    ensures clo(a.update(h, n), fp, nm, u), clo(a.update(h, n), fp, nm, w), fr(a, a.update(h, n), u), tree(a.update(h, n))
{
    reveal(clo); reveal(fr); reveal(tree);
    let b = a.update(h, n);
    let r = choose|r: Seq<nat>| ranked(a, r);
    let m = top(r, r.len() as int);
    let q = Seq::new(r.len(), |i: int| if w.has(i) { (r[i] + m + 1) as nat } else { r[i] });
    assert forall|i: int, k: int| 0 <= i < b.len() && #[trigger] kid(b[i], k) implies 0 <= k < b.len() && q[k] < q[i] by {
        if kid(a[i], k) { if !w.has(k) { top_ge(r, r.len() as int, k); } } else { top_ge(r, r.len() as int, k); }
    }
    assert(ranked(b, q));
    assert forall|i: int, k: int| 0 <= i < b.len() && #[trigger] kid(b[i], k) && u.has(k) implies u.has(i) by { if i == h { if kid(a[h], k) { } } else { assert(kid(a[i], k)); } }
    assert forall|i: int, k: int| 0 <= i < b.len() && #[trigger] kid(b[i], k) && w.has(k) implies w.has(i) by { if i != h { assert(kid(a[i], k)); } }
}
// the tables of back references
pub proof fn clo_fp(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, r: int, u: W)
    requires clo(a, fp, nm, u), rin(a, r, u)
    ensures clo(a, fp.push(r), nm, u)
{ reveal(clo); }
pub proof fn clo_nm(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, r: int, u: W)
    requires clo(a, fp, nm, u), rin(a, r, u), !late(a[r])
    ensures clo(a, fp, nm.push(r), u)
{ reveal(clo); }
pub proof fn clo_empty(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, u: W)
    requires clo(a, fp, nm, u)
    ensures clo(a, Seq::empty(), Seq::empty(), u)
{ reveal(clo); }
pub proof fn clo_w0(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, u: W)
    requires clo(a, fp, nm, u)
    ensures clo(a, fp, nm, w0())
{
    reveal(clo);
    assert forall|i: int, h: int| 0 <= i < a.len() && #[trigger] kid(a[i], h) && w0().has(h) implies w0().has(i) by { lemma_tree_kid(a, i, h); }
}
pub proof fn clo_back(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, b: Seq<SNode>, fp2: Seq<int>, nm2: Seq<int>, u: W)
    requires clo(a, fp, nm, u), clo(b, fp2, nm2, u), fr(a, b, u)
    ensures clo(b, fp, nm, u)
{
    reveal(clo); reveal(fr);
    assert forall|i: int| #![trigger nm[i]] 0 <= i < nm.len() implies 0 <= nm[i] < b.len() && !u.has(nm[i]) && !late(b[nm[i]]) by { assert(b[nm[i]] == b[nm[i]]); }
}
// a set of nodes younger than the table `a`
pub proof fn clo_back_new(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, b: Seq<SNode>, fp2: Seq<int>, nm2: Seq<int>, u: W, w: W)
    requires clo(a, fp, nm, u), clo(b, fp2, nm2, w), fr(a, b, u), w.a >= a.len(), w.b >= a.len(), w.c >= a.len()
    ensures clo(b, fp, nm, w)
{
    reveal(clo); reveal(fr);
    assert forall|i: int| #![trigger nm[i]] 0 <= i < nm.len() implies 0 <= nm[i] < b.len() && !w.has(nm[i]) && !late(b[nm[i]]) by { assert(b[nm[i]] == b[nm[i]]); }
}

// ---- productions that read text only

pub broadcast proof fn st_hex(s: PS, n: int) ensures still(s, #[trigger] p_hex(s, n)) decreases s.rest.len()
{
    reveal(p_hex);
    if s.rest.len() > 0 { st_hex(skip(s, 1), (n * 16) % 18446744073709551616 + rhex(s.rest[0])); }
}
pub broadcast proof fn st_number(s: PS) ensures still(s, #[trigger] p_number(s)) { reveal(p_number); broadcast use st_hex; }
pub broadcast proof fn st_unsigned(s: PS) ensures still(s, #[trigger] p_unsigned(s)) { reveal(p_unsigned); broadcast use st_number; }
pub broadcast proof fn st_signed(s: PS) ensures still(s, #[trigger] p_signed(s)) { reveal(p_signed); broadcast use st_number; }
pub broadcast proof fn st_ext_quals(s: PS) ensures st(s, #[trigger] p_ext_quals(s).0) { reveal(p_ext_quals); }
pub broadcast proof fn st_quals(s: PS) ensures still(s, #[trigger] p_quals(s)) { reveal(p_quals); }
pub broadcast proof fn st_ptr_cv(s: PS) ensures still(s, #[trigger] p_ptr_cv(s)) { reveal(p_ptr_cv); }
pub broadcast proof fn st_refq(s: PS) ensures st(s, #[trigger] p_refq(s).0) { reveal(p_refq); }
pub broadcast proof fn st_func_class(s: PS) ensures still(s, #[trigger] p_func_class(s)) { reveal(p_func_class); }
pub broadcast proof fn st_cc(s: PS) ensures still(s, #[trigger] p_cc(s)) { reveal(p_cc); }
pub broadcast proof fn st_sc(s: PS) ensures still(s, #[trigger] p_sc(s)) { reveal(p_sc); }
pub broadcast proof fn st_throw(s: PS) ensures still(s, #[trigger] p_throw(s)) { reveal(p_throw); }
pub broadcast proof fn st_tag(s: PS) ensures still(s, #[trigger] p_tag(s)) { reveal(p_tag); }
pub broadcast proof fn st_adjust(s: PS, fc: u16) ensures still(s, #[trigger] p_adjust(s, fc)) { reveal(p_adjust); broadcast use st_signed; }
pub broadcast proof fn st_offsets(s: PS, n: int, acc: Seq<int>) ensures still(s, #[trigger] p_offsets(s, n, acc)) decreases n - acc.len()
{
    reveal(p_offsets);
    broadcast use st_signed;
    if acc.len() < n { if let Ok(r) = p_signed(s) { st_offsets(r.0, n, acc.push(r.1)); } }
}
pub broadcast proof fn st_wchar(s: PS) ensures still(s, #[trigger] p_wchar_lit(s)) { reveal(p_wchar_lit); broadcast use st_char; }
pub broadcast proof fn st_char(s: PS) ensures still(s, #[trigger] p_char_lit(s)) { reveal(p_char_lit); }
pub broadcast proof fn st_wide(s: PS, len: int, trunc: bool, ob: Seq<char>) ensures still(s, #[trigger] p_wide(s, len, trunc, ob))
    decreases s.rest.len()
{
    reveal(p_wide);
    broadcast use st_wchar;
    if let Ok(r) = p_wchar_lit(s) {
        if r.0.rest.len() < s.rest.len() {
            let n = if len >= 2 { len - 2 } else { 0 };
            if len != 2 || trunc { if let Ok(o) = o_esc(ob, r.1) { st_wide(r.0, n, trunc, o); } } else { st_wide(r.0, n, trunc, ob); }
        }
    }
}
pub broadcast proof fn st_bytes(s: PS, bs: Seq<int>) ensures still(s, #[trigger] p_bytes(s, bs))
    decreases s.rest.len()
{
    reveal(p_bytes);
    broadcast use st_char;
    if let Ok(r) = p_char_lit(s) { if r.0.rest.len() < s.rest.len() { st_bytes(r.0, bs.push(r.1)); } }
}
pub broadcast group group_st { st_number, st_unsigned, st_signed, st_ext_quals, st_quals, st_ptr_cv, st_refq, st_func_class, st_cc, st_sc, st_throw, st_tag, st_adjust, st_offsets, st_wide, st_bytes }

// ---- productions that add nodes

pub broadcast proof fn kids_none(n: SNode, h: int)
    requires n is Prim || n is Vcall || n is Guard || n is Rtti || n is Int || n is Str
    ensures !(#[trigger] kid(n, h))
{ }
pub broadcast proof fn kids_quals(n: SNode, q: u8, h: int)
    ensures #[trigger] kid(set_quals_of(n, q), h) == kid(n, h)
{ broadcast use lemma_kids, kids_none; }
pub broadcast proof fn kids_class(n: SNode, q: u16, h: int)
    ensures #[trigger] kid(set_class_of(n, q), h) == kid(n, h)
{ broadcast use lemma_kids; }
pub proof fn kids_arr(a: Seq<SNode>, s: Seq<int>, u: W)
    requires rins(a, s, u)
    ensures kf(a, SNode::Array { nodes: s }, u)
{
    let n = SNode::Array { nodes: s };
    assert forall|h: int| #[trigger] kid(n, h) implies rin(a, h, u) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == h; assert(rin(a, s[i], u)); }
}
pub broadcast group group_kids { lemma_kids, kids_none, kids_quals, kids_class }

pub proof fn i_intern(s: PS, n: SNode, u: W)
    requires cl(s, u), kf(s.nodes, n, u)
    ensures goes(s, intern(s, n), u), fresh(s, intern(s, n))
{ if s.nodes.len() + 1 <= MAX_NODES { clo_push(s.nodes, s.fp, s.nm, n, u); } }
pub proof fn i_upd(s: PS, h: int, n: SNode, u: W)
    requires cl(s, u), rin(s.nodes, h, u), forall|k: int| #[trigger] kid(n, k) ==> kid(s.nodes[h], k), late(n) ==> late(s.nodes[h])
    ensures step(s, upd(s, h, n), u)
{ clo_upd(s.nodes, s.fp, s.nm, h, n, u); }
pub proof fn i_quals(s: PS, h: int, q: u8, u: W)
    requires cl(s, u), rin(s.nodes, h, u)
    ensures step(s, upd(s, h, set_quals_of(s.nodes[h], q)), u)
{ broadcast use kids_quals; i_upd(s, h, set_quals_of(s.nodes[h], q), u); }

pub proof fn i_memorize(s: PS, t: Seq<char>, styled: Option<Seq<char>>, u: W)
    requires cl(s, u)
    ensures p_memorize(s, t, styled) matches Ok(t) ==> step(s, t, u)
{
    reveal(p_memorize);
    broadcast use group_fr, group_kids;
    let n = SNode::Named { tp: None, name: t, styled: styled };
    i_intern(s, n, u);
    if let Ok(r) = intern(s, n) { clo_nm(r.0.nodes, r.0.fp, s.nm, r.1, u); }
}
pub proof fn i_memorize_ident(s: PS, h: int, u: W)
    requires cl(s, u)
    ensures p_memorize_ident(s, h) matches Ok(t) ==> step(s, t, u)
{
    reveal(p_memorize_ident);
    if let Ok(t) = render(s.nodes, 0, h, Seq::empty()) {
        if s.fl == 0 { i_memorize(s, t, None, u); }
        else if let Ok(t2) = render(s.nodes, s.fl, h, Seq::empty()) { i_memorize(s, t, Some(t2), u); }
    }
}
pub proof fn i_simple_string(s: PS, memorize: bool, u: W)
    requires cl(s, u)
    ensures goesx(s, p_simple_string(s, memorize), u)
{
    reveal(p_simple_string);
    broadcast use group_fr;
    if let Some(i) = find(s.rest, '@') { i_memorize(skip(s, i + 1), s.rest.subrange(0, i), None, u); }
}
pub proof fn i_simple_name(s: PS, memorize: bool, u: W)
    requires cl(s, u)
    ensures goes(s, p_simple_name(s, memorize), u), fresh(s, p_simple_name(s, memorize))
{
    reveal(p_simple_name);
    broadcast use group_fr, group_kids;
    i_simple_string(s, memorize, u);
    if let Ok(r) = p_simple_string(s, memorize) { i_intern(r.0, named(r.1), u); }
}
pub proof fn i_anon_namespace(s: PS, u: W)
    requires cl(s, u)
    ensures goes(s, p_anon_namespace(s), u)
{
    reveal(p_anon_namespace);
    broadcast use group_fr, group_kids;
    if let Ok(s1) = expect_str(s, "?A"@, ErrK::InvalidAnonymousNamespaceName) {
        if let Some(i) = find(s1.rest, '@') {
            i_memorize(skip(s1, i), s1.rest.subrange(0, i), None, u);
            if let Ok(s2) = p_memorize(skip(s1, i), s1.rest.subrange(0, i), None) {
                if let Ok(s3) = expect_char(s2, '@', ErrK::InvalidAnonymousNamespaceName) {
                    i_intern(s3, named("`anonymous namespace'"@), u);
                }
            }
        }
    }
}
pub proof fn i_back_ref(s: PS, u: W)
    requires cl(s, u)
    ensures goes(s, p_back_ref(s), u), p_back_ref(s) matches Ok(t) ==> !late(t.0.nodes[t.1]) && s.nm.len() > 0
{
    reveal(p_back_ref); reveal(clo);
    broadcast use group_fr;
    if at_digit(s.rest) && ci(s.rest[0]) - 48 < s.nm.len() { let k = s.nm[ci(s.rest[0]) - 48]; }
}
pub proof fn i_prim(s: PS, u: W)
    requires cl(s, u)
    ensures goes(s, p_prim(s), u)
{
    reveal(p_prim);
    broadcast use group_fr, group_kids;
    assert forall|t: PS, k: PrimitiveKind| st(s, t) implies goes(s, #[trigger] intern(t, SNode::Prim { quals: 0, kind: k }), u) by { i_intern(t, SNode::Prim { quals: 0, kind: k }, u); }
}
pub proof fn i_ident_code_group(s: PS, group: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_ident_code_group(s, group), u), fresh(s, p_ident_code_group(s, group))
{
    reveal(p_ident_code_group);
    broadcast use group_fr, group_kids;
    if let Ok(r) = any(s, ErrK::InvalidFunctionIdentifierCode) {
        i_intern(r.0, SNode::Structor { tp: None, class: None, dtor: r.1 == '1' }, u);
        i_intern(r.0, SNode::Conv { tp: None, target: None }, u);
        i_simple_string(r.0, false, u);
        if let Ok(n) = p_simple_string(r.0, false) { i_intern(n.0, SNode::LitOp { tp: None, name: n.1 }, u); }
        if let Ok(op) = p_op(r.1, group) { i_intern(r.0, SNode::Intrinsic { tp: None, op: op }, u); }
    }
}
pub proof fn i_ident_code(s: PS, u: W)
    requires cl(s, u)
    ensures goes(s, p_ident_code(s), u), fresh(s, p_ident_code(s))
{
    reveal(p_ident_code);
    if let Ok(t) = expect_char(s, '?', ErrK::InvalidFunctionIdentifierCode) {
        i_ident_code_group(skip(t, "__"@.len() as int), 2, u);
        i_ident_code_group(skip(t, 1), 1, u);
        i_ident_code_group(t, 0, u);
    }
}
pub proof fn i_string(s: PS, u: W)
    requires cl(s, u)
    ensures goes(s, p_string(s), u)
{
    reveal(p_string);
    broadcast use group_fr, group_kids, group_st;
    assert forall|t: PS, x: Seq<char>, b: bool, c: CharKind| st(s, t) implies goes(s, #[trigger] intern(t, SNode::Str { name: None, text: x, trunc: b, ch: c }), u) by {
        i_intern(t, SNode::Str { name: None, text: x, trunc: b, ch: c }, u);
    }
}
pub proof fn i_synth(s: PS, h: int, u: W)
    requires cl(s, u), rin(s.nodes, h, u)
    ensures goes(s, p_synth(s, h), u)
{
    reveal(p_synth);
    broadcast use group_fr, group_kids;
    kids_arr(s.nodes, one(h), u);
    i_intern(s, SNode::Array { nodes: one(h) }, u);
    if let Ok(r) = intern(s, SNode::Array { nodes: one(h) }) { i_intern(r.0, SNode::QName { comps: r.1 }, u); }
}
pub proof fn i_md5(s: PS, u: W)
    requires cl(s, u)
    ensures goes(s, p_md5(s), u)
{
    reveal(p_md5);
    broadcast use group_fr, group_kids;
    if let Ok(s1) = expect_str(s, "??@"@, ErrK::InvalidMd5Name) {
        if let Some(i) = find(s1.rest, '@') {
            let s2 = skip(s1, i + 1);
            let s3 = if starts(s2.rest, "??_R4@"@) { skip(s2, "??_R4@"@.len() as int) } else { s2 };
            let n = named(s.rest.subrange(0, s.rest.len() as int - s3.rest.len() as int));
            i_intern(s3, n, u);
            if let Ok(r) = intern(s3, n) {
                i_synth(r.0, r.1, u);
                if let Ok(q) = p_synth(r.0, r.1) { i_intern(q.0, SNode::Md5 { name: q.1 }, u); }
            }
        }
    }
}
pub proof fn i_dims(s: PS, rank: int, i: int, acc: Seq<int>, u: W)
    requires cl(s, u), rins(s.nodes, acc, u)
    ensures p_dims(s, rank, i, acc) matches Ok(t) ==> step(s, t.0, u) && rins(t.0.nodes, t.1, u)
    decreases rank - i
{
    reveal(p_dims);
    broadcast use group_fr, group_kids, group_st;
    if 0 <= i < rank {
        if let Ok(n) = p_number(s) {
            let x = SNode::Int { value: n.1.0, neg: false };
            i_intern(n.0, x, u);
            if let Ok(r) = intern(n.0, x) { i_dims(r.0, rank, i + 1, acc.push(r.1), u); }
        }
    }
}

// ---- names

// the components of a qualified name
pub open spec fn qc(a: Seq<SNode>, q: int) -> int { a[q]->QName_comps }
pub open spec fn qn(a: Seq<SNode>, q: int, h: int) -> bool {
    &&& 0 <= q < a.len() && a[q] is QName && 0 <= qc(a, q) < a.len() && a[qc(a, q)] is Array
    &&& a[qc(a, q)]->Array_nodes.len() > 0 && a[qc(a, q)]->Array_nodes.last() == h && 0 <= h < a.len()
}
// the name `h` and the list and the qualified name that refer to it
pub open spec fn qw(a: Seq<SNode>, q: int, h: int) -> W { W { a: h, b: qc(a, q), c: q } }
// a qualified name just made: nothing refers to it, nor to its identifier from outside of it if that is a `late` one
#[verifier::opaque]
pub open spec fn qs(s: PS, q: int) -> bool {
    &&& 0 <= q < s.nodes.len() && s.nodes[q] is QName && 0 <= qc(s.nodes, q) < s.nodes.len() && s.nodes[qc(s.nodes, q)] is Array
    &&& s.nodes[qc(s.nodes, q)]->Array_nodes.len() > 0
    &&& 0 <= s.nodes[qc(s.nodes, q)]->Array_nodes.last() < s.nodes.len()
    &&& cl(s, qw(s.nodes, q, q))
    &&& late(s.nodes[s.nodes[qc(s.nodes, q)]->Array_nodes.last()]) ==> cl(s, qw(s.nodes, q, s.nodes[qc(s.nodes, q)]->Array_nodes.last()))
}
pub open spec fn chain_ok(s: PS, x: PR<int>, h: int) -> bool {
    x matches Ok(t) ==> qn(t.0.nodes, t.1, h) && qc(t.0.nodes, t.1) >= s.nodes.len() && t.1 >= s.nodes.len() && cl(t.0, qw(t.0.nodes, t.1, t.1))
}
pub open spec fn chain_late(s: PS, x: PR<int>, h: int) -> bool {
    x matches Ok(t) ==> {
        &&& fr(s.nodes, t.0.nodes, w1(h))
        &&& cl(t.0, qw(t.0.nodes, t.1, h))
        &&& rins(t.0.nodes, t.0.nodes[qc(t.0.nodes, t.1)]->Array_nodes.drop_last(), qw(t.0.nodes, t.1, h))
    }
}

pub proof fn i_template(s: PS, d: int, nbb: u8, u: W)
    requires cl(s, u)
    ensures goes(s, p_template(s, d, nbb), u), fresh(s, p_template(s, d, nbb))
    decreases MAX_NESTING - d, 0int
{
    def_p_template(s, d, nbb);
    if enter(d) { i_template_body(s, d + 1, nbb, u); }
}
pub proof fn i_template_body(s: PS, d: int, nbb: u8, u: W)
    requires cl(s, u)
    ensures goes(s, p_template_body(s, d, nbb), u), fresh(s, p_template_body(s, d, nbb))
    decreases MAX_NESTING - d, 50int
{
    def_p_template_body(s, d, nbb);
    broadcast use group_fr;
    if let Ok(s1) = expect_str(s, "?$"@, ErrK::InvalidTemplateInstantiationName) {
        let inner = PS { fp: Seq::empty(), nm: Seq::empty(), ..s1 };
        clo_empty(s.nodes, s.fp, s.nm, u);
        i_unq_symbol(inner, d, NBB_SIMPLE, u);
        if let Ok(id) = p_unq_symbol(inner, d, NBB_SIMPLE) {
            i_tparams(id.0, d, u);
            i_tparams(id.0, d, w1(id.1));
            if let Ok(tp) = p_tparams(id.0, d) {
                let n = set_tparams_of(tp.0.nodes[id.1], tp.1);
                assert forall|k: int| #[trigger] kid(n, k) implies kid(tp.0.nodes[id.1], k) || (rin(tp.0.nodes, k, w1(id.1)) && rin(tp.0.nodes, k, u)) by { broadcast use group_kids; }
                clo_raise(tp.0.nodes, tp.0.fp, tp.0.nm, id.1, n, w1(id.1), u);
                let s4 = upd(tp.0, id.1, n);
                let s5 = PS { fp: s1.fp, nm: s1.nm, ..s4 };
                clo_back(s.nodes, s.fp, s.nm, s4.nodes, s4.fp, s4.nm, u);
                clo_back_new(s.nodes, s.fp, s.nm, s4.nodes, s4.fp, s4.nm, u, w1(id.1));
                i_memorize_ident(s5, id.1, u);
                i_memorize_ident(s5, id.1, w1(id.1));
            }
        }
    }
}
pub proof fn i_unq_type(s: PS, d: int, memorize: bool, u: W)
    requires cl(s, u)
    ensures goes(s, p_unq_type(s, d, memorize), u)
    decreases MAX_NESTING - d, 1int
{
    def_p_unq_type(s, d, memorize);
    if at_digit(s.rest) { i_back_ref(s, u); }
    else if starts(s.rest, "?$"@) { i_template(s, d, NBB_TEMPLATE, u); }
    else { i_simple_name(s, memorize, u); }
}
pub proof fn i_unq_symbol(s: PS, d: int, nbb: u8, u: W)
    requires cl(s, u)
    ensures
        goes(s, p_unq_symbol(s, d, nbb), u),
        p_unq_symbol(s, d, nbb) matches Ok(t) ==> (s.nm.len() == 0 || late(t.0.nodes[t.1]) ==> t.1 >= s.nodes.len() && cl(t.0, w1(t.1)))
    decreases MAX_NESTING - d, 1int
{
    def_p_unq_symbol(s, d, nbb);
    if at_digit(s.rest) { i_back_ref(s, u); }
    else if starts(s.rest, "?$"@) { i_template(s, d, nbb, u); }
    else if starts(s.rest, "?"@) { i_ident_code(s, u); }
    else { i_simple_name(s, nbb & NBB_SIMPLE == NBB_SIMPLE, u); }
}
pub proof fn i_local_scope(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_local_scope(s, d), u)
    decreases MAX_NESTING - d, 1int
{
    def_p_local_scope(s, d);
    broadcast use group_fr, group_st, group_kids;
    if let Ok(s1) = expect_char(s, '?', ErrK::InvalidLocallyScopedNamePiece) {
        if let Ok(n) = p_number(s1) {
            if let Ok(s2) = expect_char(n.0, '?', ErrK::InvalidLocallyScopedNamePiece) {
                i_parse(s2, d, u);
                if let Ok(r) = p_parse(s2, d) {
                    assert forall|t: Seq<char>, st: Option<Seq<char>>| #![trigger intern(r.0, SNode::Named { tp: None, name: t, styled: st })] goes(r.0, intern(r.0, SNode::Named { tp: None, name: t, styled: st }), u) by { i_intern(r.0, SNode::Named { tp: None, name: t, styled: st }, u); }
                }
            }
        }
    }
}
pub proof fn i_scope_piece(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_scope_piece(s, d), u)
    decreases MAX_NESTING - d, 2int
{
    def_p_scope_piece(s, d);
    if at_digit(s.rest) { i_back_ref(s, u); }
    else if starts(s.rest, "?$"@) { i_template(s, d, NBB_TEMPLATE, u); }
    else if starts(s.rest, "?A"@) { i_anon_namespace(s, u); }
    else if local_scope_pattern(s.rest) { i_local_scope(s, d, u); }
    else { i_simple_name(s, true, u); }
}
pub proof fn i_chain_from(s: PS, d: int, acc: Seq<int>, u: W)
    requires cl(s, u), rins(s.nodes, acc, u), acc.len() > 0
    ensures goes(s, p_chain_from(s, d, acc), u), chain_ok(s, p_chain_from(s, d, acc), acc[0])
    decreases MAX_NESTING - d, 3int, s.rest.len()
{
    def_p_chain_from(s, d, acc);
    broadcast use group_fr;
    if at(s.rest, '@') {
        let n = SNode::Array { nodes: rev(acc) };
        assert(rins(s.nodes, rev(acc), u));
        assert(rins(s.nodes, rev(acc), w0())) by { assert forall|i: int| #![trigger rev(acc)[i]] 0 <= i < rev(acc).len() implies rin(s.nodes, rev(acc)[i], w0()) by { assert(rin(s.nodes, rev(acc)[i], u)); } }
        kids_arr(s.nodes, rev(acc), u);
        kids_arr(s.nodes, rev(acc), w0());
        i_intern(skip(s, 1), n, u);
        clo_w0(s.nodes, s.fp, s.nm, u);
        if let Ok(r) = intern(skip(s, 1), n) {
            let c = r.1;
            clo_push_in(s.nodes, s.fp, s.nm, n, w0(), w1(c));
            let m = SNode::QName { comps: c };
            assert(kf(r.0.nodes, m, u) && kf(r.0.nodes, m, w0())) by { broadcast use group_kids; }
            i_intern(r.0, m, u);
            if let Ok(q) = intern(r.0, m) {
                clo_push_in(r.0.nodes, r.0.fp, r.0.nm, m, w1(c), qw(q.0.nodes, q.1, q.1));
                assert(rev(acc).last() == acc[0]);
                assert(q.0.nodes[c] == n);
            }
        }
    } else if s.rest.len() > 0 {
        i_scope_piece(s, d, u);
        if let Ok(r) = p_scope_piece(s, d) {
            if r.0.rest.len() < s.rest.len() { i_chain_from(r.0, d, acc.push(r.1), u); }
        }
    }
}
pub proof fn i_chain_late(s: PS, d: int, acc: Seq<int>, h: int)
    requires cl(s, w1(h)), acc.len() > 0, acc[0] == h, 0 <= h, rins(s.nodes, acc.subrange(1, acc.len() as int), w1(h))
    ensures chain_late(s, p_chain_from(s, d, acc), h)
    decreases MAX_NESTING - d, 3int, s.rest.len()
{
    def_p_chain_from(s, d, acc);
    broadcast use group_fr;
    clo_tree(s.nodes, s.fp, s.nm, w1(h));
    let t = acc.subrange(1, acc.len() as int);
    assert forall|i: int| #![trigger acc[i]] 1 <= i < acc.len() implies rin(s.nodes, acc[i], w1(h)) by { assert(t[i - 1] == acc[i]); }
    if at(s.rest, '@') {
        let n = SNode::Array { nodes: rev(acc) };
        let rs = rev(acc);
        assert forall|i: int| #![trigger rs[i]] 0 <= i < rs.len() implies rin(s.nodes, rs[i], w0()) by { assert(rs[i] == acc[acc.len() - 1 - i]); }
        kids_arr(s.nodes, rs, w0());
        if let Ok(r) = intern(skip(s, 1), n) {
            let c = r.1;
            clo_push_in(s.nodes, s.fp, s.nm, n, w1(h), W { a: h, b: c, c: c });
            let m = SNode::QName { comps: c };
            assert(kf(r.0.nodes, m, w0())) by { broadcast use group_kids; }
            if let Ok(q) = intern(r.0, m) {
                clo_push_in(r.0.nodes, r.0.fp, r.0.nm, m, W { a: h, b: c, c: c }, qw(q.0.nodes, q.1, h));
                assert(q.0.nodes[c] == n);
                assert(fr(s.nodes, q.0.nodes, w1(h))) by { reveal(fr); }
                let xs = rs.drop_last();
                assert forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() implies rin(q.0.nodes, xs[i], qw(q.0.nodes, q.1, h)) by { assert(xs[i] == acc[acc.len() - 1 - i]); }
            }
        }
    } else if s.rest.len() > 0 {
        i_scope_piece(s, d, w1(h));
        if let Ok(r) = p_scope_piece(s, d) {
            if r.0.rest.len() < s.rest.len() {
                let acc2 = acc.push(r.1);
                let t2 = acc2.subrange(1, acc2.len() as int);
                assert forall|i: int| #![trigger t2[i]] 0 <= i < t2.len() implies rin(r.0.nodes, t2[i], w1(h)) by { assert(t2[i] == acc2[i + 1]); }
                i_chain_late(r.0, d, acc2, h);
            }
        }
    }
}
pub proof fn i_chain(s: PS, d: int, h: int, u: W)
    requires cl(s, u), rin(s.nodes, h, u)
    ensures
        goes(s, p_chain(s, d, h), u), chain_ok(s, p_chain(s, d, h), h),
        cl(s, w1(h)) ==> chain_late(s, p_chain(s, d, h), h)
    decreases MAX_NESTING - d, 4int
{
    def_p_chain(s, d, h);
    i_chain_from(s, d, one(h), u);
    if cl(s, w1(h)) { i_chain_late(s, d, one(h), h); }
}
pub proof fn i_fq_type(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_fq_type(s, d), u)
    decreases MAX_NESTING - d, 5int
{
    def_p_fq_type(s, d);
    broadcast use group_fr;
    i_unq_type(s, d, true, u);
    if let Ok(r) = p_unq_type(s, d, true) { i_chain(r.0, d, r.1, u); }
}
pub proof fn i_fq_symbol(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures
        goes(s, p_fq_symbol(s, d), u),
        p_fq_symbol(s, d) matches Ok(t) ==> qs(t.0, t.1)
    decreases MAX_NESTING - d, 5int
{
    reveal(qs);
    def_p_fq_symbol(s, d);
    broadcast use group_fr;
    i_unq_symbol(s, d, NBB_SIMPLE, u);
    if let Ok(id) = p_unq_symbol(s, d, NBB_SIMPLE) {
        i_chain(id.0, d, id.1, u);
        if let Ok(q) = p_chain(id.0, d, id.1) {
            let a = q.0.nodes;
            let h = id.1;
            let c0 = qc(a, q.1);
            fr_at(id.0.nodes, a, u, h);
            if let SNode::Structor { tp, class, dtor } = a[h] {
                let cs = comps_of(a, q.1);
                assert(cs == a[c0]->Array_nodes);
                if cs.len() >= 2 {
                    let c = cs[cs.len() as int - 2];
                    let n = SNode::Structor { tp: tp, class: Some(c), dtor: dtor };
                    let w = qw(a, q.1, h);
                    assert(cs.drop_last()[cs.len() as int - 2] == c);
                    assert(rin(a, c, w));
                    assert(kid(a[q.1], c0)) by { broadcast use group_kids; }
                    clo_kid(a, q.0.fp, q.0.nm, u, q.1, c0);
                    assert(kid(a[c0], c));
                    clo_kid(a, q.0.fp, q.0.nm, u, c0, c);
                    assert forall|k: int| #[trigger] kid(n, k) implies kid(a[h], k) || (rin(a, k, w) && rin(a, k, u)) by { broadcast use group_kids; }
                    clo_raise(a, q.0.fp, q.0.nm, h, n, w, u);
                    clo_raise(a, q.0.fp, q.0.nm, h, n, w, qw(a, q.1, q.1));
                }
            }
        }
    }
}

// ---- types

pub proof fn i_type(s: PS, d: int, qmm: QualifierMangleMode, u: W)
    requires cl(s, u)
    ensures goes(s, p_type(s, d, qmm), u)
    decreases MAX_NESTING - d, 0int
{
    def_p_type(s, d, qmm);
    if enter(d) { i_type_body(s, d + 1, qmm, u); }
}
pub proof fn i_type_body(s: PS, d: int, qmm: QualifierMangleMode, u: W)
    requires cl(s, u)
    ensures goes(s, p_type_body(s, d, qmm), u)
    decreases MAX_NESTING - d, 50int
{
    def_p_type_body(s, d, qmm);
    broadcast use group_fr, group_st;
    let t = match qmm {
        QualifierMangleMode::Mangle => match p_quals(s) { Ok(r) => r.0, Err(_) => s },
        QualifierMangleMode::Result => if at(s.rest, '?') { match p_quals(skip(s, 1)) { Ok(r) => r.0, Err(_) => s } } else { s },
        QualifierMangleMode::Drop => s,
    };
    i_type_kind(t, d, u);
    if let Ok(r) = p_type_kind(t, d) {
        assert forall|q: u8| goes(s, Ok::<(PS, int), ErrK>((#[trigger] upd(r.0, r.1, add_quals_of(r.0.nodes[r.1], q)), r.1)), u) by { i_quals(r.0, r.1, quals_of(r.0.nodes[r.1]) | q, u); }
    }
}
pub proof fn i_type_kind(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_type_kind(s, d), u)
    decreases MAX_NESTING - d, 45int
{
    def_p_type_kind(s, d);
    if is_tag_type(s.rest) { i_class(s, d, u); }
    else if is_pointer_type(s.rest) { i_member_ptr(s, d, u); i_ptr(s, d, u); }
    else if at(s.rest, 'Y') { i_array(s, d, u); }
    else if is_function_type(s.rest) {
        i_func_type(skip(s, "$$A8@@"@.len() as int), d, true, u);
        i_func_type(skip(s, "$$A6"@.len() as int), d, false, u);
    }
    else if at(s.rest, '?') { i_custom(s, d, u); }
    else { i_prim(s, u); }
}
pub proof fn i_custom(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_custom(s, d), u)
    decreases MAX_NESTING - d, 6int
{
    def_p_custom(s, d);
    broadcast use group_fr, group_kids;
    if let Ok(s1) = expect_char(s, '?', ErrK::InvalidCustomType) {
        i_unq_type(s1, d, true, u);
        if let Ok(r) = p_unq_type(s1, d, true) {
            if let Ok(s2) = expect_char(r.0, '@', ErrK::InvalidCustomType) { i_intern(s2, SNode::Custom { quals: 0, ident: r.1 }, u); }
        }
    }
}
pub proof fn i_class(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_class(s, d), u)
    decreases MAX_NESTING - d, 6int
{
    def_p_class(s, d);
    broadcast use group_fr, group_kids, group_st;
    if let Ok(t) = p_tag(s) {
        i_fq_type(t.0, d, u);
        if let Ok(r) = p_fq_type(t.0, d) { i_intern(r.0, SNode::Tag { quals: 0, name: r.1, tag: t.1 }, u); }
    }
}
pub proof fn i_ptr(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_ptr(s, d), u)
    decreases MAX_NESTING - d, 20int
{
    def_p_ptr(s, d);
    broadcast use group_fr, group_st;
    if let Ok(cv) = p_ptr_cv(s) {
        let x = if at(cv.0.rest, '6') { p_func_type(skip(cv.0, 1), d, false) } else { p_type(p_ext_quals(cv.0).0, d, QualifierMangleMode::Mangle) };
        i_func_type(skip(cv.0, 1), d, false, u);
        i_type(p_ext_quals(cv.0).0, d, QualifierMangleMode::Mangle, u);
        if let Ok(r) = x {
            assert forall|q: u8, a: PointerAffinity| #![trigger intern(r.0, SNode::Ptr { quals: q, aff: Some(a), parent: None, pointee: r.1 })] goes(s, intern(r.0, SNode::Ptr { quals: q, aff: Some(a), parent: None, pointee: r.1 }), u) by {
                broadcast use group_kids;
                i_intern(r.0, SNode::Ptr { quals: q, aff: Some(a), parent: None, pointee: r.1 }, u);
            }
        }
    }
}
pub proof fn i_member_ptr(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_member_ptr(s, d), u)
    decreases MAX_NESTING - d, 20int
{
    def_p_member_ptr(s, d);
    broadcast use group_fr, group_st, group_kids;
    if let Ok(cv) = p_ptr_cv(s) {
        let e = p_ext_quals(cv.0);
        let quals = cv.1.0 | e.1;
        if at(e.0.rest, '8') {
            i_fq_type(skip(e.0, 1), d, u);
            if let Ok(c) = p_fq_type(skip(e.0, 1), d) {
                i_func_type(c.0, d, true, u);
                if let Ok(f) = p_func_type(c.0, d, true) { i_intern(f.0, SNode::Ptr { quals: quals, aff: Some(cv.1.1), parent: Some(c.1), pointee: f.1 }, u); }
            }
        } else if let Ok(q) = p_quals(e.0) {
            i_fq_type(q.0, d, u);
            if let Ok(c) = p_fq_type(q.0, d) {
                i_type(c.0, d, QualifierMangleMode::Drop, u);
                if let Ok(t) = p_type(c.0, d, QualifierMangleMode::Drop) {
                    i_quals(t.0, t.1, q.1.0, u);
                    i_intern(upd(t.0, t.1, set_quals_of(t.0.nodes[t.1], q.1.0)), SNode::Ptr { quals: quals, aff: Some(cv.1.1), parent: Some(c.1), pointee: t.1 }, u);
                }
            }
        }
    }
}
pub proof fn i_func_type(s: PS, d: int, this: bool, u: W)
    requires cl(s, u)
    ensures goes(s, p_func_type(s, d, this), u)
    decreases MAX_NESTING - d, 10int
{
    def_p_func_type(s, d, this);
    broadcast use group_fr, group_st;
    let q = if this { match p_quals(p_refq(p_ext_quals(s).0).0) { Ok(r) => r.0, Err(_) => s } } else { s };
    if let Ok(cc) = p_cc(q) {
        i_type(cc.0, d, QualifierMangleMode::Result, u);
        let rt = if at(cc.0.rest, '@') { (skip(cc.0, 1), None) } else { match p_type(cc.0, d, QualifierMangleMode::Result) { Ok(r) => (r.0, Some(r.1)), Err(_) => (s, None::<int>) } };
        assert(step(s, rt.0, u) && rin_o(rt.0.nodes, rt.1, u));
        i_params(rt.0, d, u);
        if let Ok(ps) = p_params(rt.0, d) {
            if let Ok(th) = p_throw(ps.0) {
                assert forall|f: SFunc| f.ret == rt.1 && f.params == ps.1.0 implies goes(s, #[trigger] intern(th.0, SNode::Sig { f: f }), u) by {
                    broadcast use group_kids;
                    i_intern(th.0, SNode::Sig { f: f }, u);
                }
            }
        }
    }
}
pub proof fn i_params_from(s: PS, d: int, acc: Seq<int>, u: W)
    requires cl(s, u), rins(s.nodes, acc, u)
    ensures p_params_from(s, d, acc) matches Ok(t) ==> step(s, t.0, u) && rins(t.0.nodes, t.1, u)
    decreases MAX_NESTING - d, 1int, s.rest.len()
{
    def_p_params_from(s, d, acc);
    broadcast use group_fr;
    if at(s.rest, '@') || at(s.rest, 'Z') || s.rest.len() == 0 {
    } else if is_digit(s.rest[0]) {
        let i = ci(s.rest[0]) - 48;
        if i < s.fp.len() {
            assert(rin(s.nodes, s.fp[i], u)) by { reveal(clo); }
            i_params_from(skip(s, 1), d, acc.push(s.fp[i]), u);
        }
    } else {
        i_type(s, d, QualifierMangleMode::Drop, u);
        if let Ok(r) = p_type(s, d, QualifierMangleMode::Drop) {
            if r.0.rest.len() < s.rest.len() {
                clo_fp(r.0.nodes, r.0.fp, r.0.nm, r.1, u);
                let s2 = if s.rest.len() as int - r.0.rest.len() as int > 1 && r.0.fp.len() < 10 { PS { fp: r.0.fp.push(r.1), ..r.0 } } else { r.0 };
                i_params_from(s2, d, acc.push(r.1), u);
            }
        }
    }
}
pub proof fn i_params(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures p_params(s, d) matches Ok(t) ==> step(s, t.0, u) && rin_o(t.0.nodes, t.1.0, u)
    decreases MAX_NESTING - d, 2int
{
    def_p_params(s, d);
    broadcast use group_fr;
    i_params_from(s, d, Seq::empty(), u);
    if let Ok(r) = p_params_from(s, d, Seq::empty()) {
        kids_arr(r.0.nodes, r.1, u);
        i_intern(r.0, SNode::Array { nodes: r.1 }, u);
    }
}
pub proof fn i_array(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_array(s, d), u)
    decreases MAX_NESTING - d, 1int
{
    def_p_array(s, d);
    broadcast use group_fr, group_st, group_kids;
    if let Ok(s1) = expect_char(s, 'Y', ErrK::InvalidArrayType) {
        if let Ok(n) = p_number(s1) {
            i_dims(n.0, n.1.0, 0, Seq::empty(), u);
            if let Ok(ds) = p_dims(n.0, n.1.0, 0, Seq::empty()) {
                kids_arr(ds.0.nodes, ds.1, u);
                i_intern(ds.0, SNode::Array { nodes: ds.1 }, u);
                if let Ok(a) = intern(ds.0, SNode::Array { nodes: ds.1 }) {
                    let q = if starts(a.0.rest, "$$C"@) { match p_quals(skip(a.0, "$$C"@.len() as int)) { Ok(r) => (r.0, r.1.0), Err(_) => (a.0, 0) } } else { (a.0, 0u8) };
                    i_type(q.0, d, QualifierMangleMode::Drop, u);
                    if let Ok(e) = p_type(q.0, d, QualifierMangleMode::Drop) { i_intern(e.0, SNode::Arr { quals: q.1, dims: a.1, elem: e.1 }, u); }
                }
            }
        }
    }
}

// ---- template parameters

pub proof fn i_tparam_value(s: PS, d: int, auto: bool, u: W)
    requires cl(s, u)
    ensures goes(s, p_tparam_value(s, d, auto), u)
    decreases MAX_NESTING - d, 6int
{
    def_p_tparam_value(s, d, auto);
    broadcast use group_fr, group_st, group_kids;
    if starts(s.rest, "$$Y"@) { i_fq_type(skip(s, "$$Y"@.len() as int), d, u); }
    else if starts(s.rest, "$$B"@) { i_type(skip(s, "$$B"@.len() as int), d, QualifierMangleMode::Drop, u); }
    else if starts(s.rest, "$$C"@) { i_type(skip(s, "$$C"@.len() as int), d, QualifierMangleMode::Mangle, u); }
    else if let Some(k) = member_fn_offsets(s.rest, auto) { i_tparam_member_fn(skip(s, value_len(auto)), d, k, u); }
    else if starts(s.rest, "$E?"@) {
        i_parse(skip(s, "$E"@.len() as int), d, u);
        if let Ok(r) = p_parse(skip(s, "$E"@.len() as int), d) { i_intern(r.0, SNode::TRef { symbol: Some(r.1), offs: Seq::empty(), aff: Some(PointerAffinity::Reference) }, u); }
    } else if let Some(k) = member_data_offsets(s.rest, auto) {
        if let Ok(o) = p_offsets(skip(s, value_len(auto)), k, Seq::empty()) { i_intern(o.0, SNode::TRef { symbol: None, offs: o.1, aff: None }, u); }
    } else if value_code(s.rest, auto, '0') {
        if let Ok(n) = p_number(skip(s, value_len(auto))) { i_intern(n.0, SNode::Int { value: n.1.0, neg: n.1.1 }, u); }
    } else { i_type(s, d, QualifierMangleMode::Drop, u); }
}
pub proof fn i_tparam_member_fn(s: PS, d: int, k: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_tparam_member_fn(s, d, k), u)
    decreases MAX_NESTING - d, 1int
{
    def_p_tparam_member_fn(s, d, k);
    broadcast use group_fr, group_st, group_kids;
    assert forall|t: PS, o: Option<int>, x: Seq<int>| step(s, t, u) && rin_o(t.nodes, o, u) implies goes(s, #[trigger] intern(t, SNode::TRef { symbol: o, offs: x, aff: Some(PointerAffinity::Pointer) }), u) by {
        i_intern(t, SNode::TRef { symbol: o, offs: x, aff: Some(PointerAffinity::Pointer) }, u);
    }
    if starts(s.rest, "?"@) {
        i_parse(s, d, u);
        if let Ok(r) = p_parse(s, d) {
            if let Some(q) = name_of(r.0.nodes[r.1]) {
                if let Some(i) = unqualified(r.0.nodes, q) { i_memorize_ident(r.0, i, u); }
            }
        }
    }
}
pub proof fn i_tparams_from(s: PS, d: int, acc: Seq<int>, u: W)
    requires cl(s, u), rins(s.nodes, acc, u)
    ensures p_tparams_from(s, d, acc) matches Ok(t) ==> step(s, t.0, u) && rins(t.0.nodes, t.1, u)
    decreases MAX_NESTING - d, 7int, s.rest.len()
{
    def_p_tparams_from(s, d, acc);
    broadcast use group_fr;
    if at(s.rest, '@') {
    } else if pack_separator(s.rest) > 0 {
        i_tparams_from(skip(s, pack_separator(s.rest)), d, acc, u);
    } else if s.rest.len() > 0 {
        let auto = starts(s.rest, "$M"@);
        i_type(skip(s, "$M"@.len() as int), d, QualifierMangleMode::Drop, u);
        let s2 = if auto { match p_type(skip(s, "$M"@.len() as int), d, QualifierMangleMode::Drop) { Ok(r) => r.0, Err(_) => s } } else { s };
        i_tparam_value(s2, d, auto, u);
        if let Ok(r) = p_tparam_value(s2, d, auto) {
            if r.0.rest.len() < s.rest.len() { i_tparams_from(r.0, d, acc.push(r.1), u); }
        }
    }
}
pub proof fn i_tparams(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_tparams(s, d), u)
    decreases MAX_NESTING - d, 8int
{
    def_p_tparams(s, d);
    broadcast use group_fr;
    i_tparams_from(s, d, Seq::empty(), u);
    if let Ok(r) = p_tparams_from(s, d, Seq::empty()) {
        kids_arr(r.0.nodes, r.1, u);
        i_intern(r.0, SNode::Array { nodes: r.1 }, u);
    }
}

// ---- symbols

pub proof fn i_var_encoding(s: PS, d: int, sc: StorageClass, u: W)
    requires cl(s, u)
    ensures goes(s, p_var_encoding(s, d, sc), u), fresh(s, p_var_encoding(s, d, sc))
    decreases MAX_NESTING - d, 20int
{
    def_p_var_encoding(s, d, sc);
    broadcast use group_fr, group_st, group_kids;
    i_type(s, d, QualifierMangleMode::Drop, u);
    if let Ok(t) = p_type(s, d, QualifierMangleMode::Drop) {
        assert forall|x: PS| step(t.0, x, u) implies goes(s, #[trigger] intern(x, SNode::Var { name: None, sc: Some(sc), ty: Some(t.1) }), u) && fresh(s, intern(x, SNode::Var { name: None, sc: Some(sc), ty: Some(t.1) })) by {
            i_intern(x, SNode::Var { name: None, sc: Some(sc), ty: Some(t.1) }, u);
        }
        if let SNode::Ptr { quals, aff, parent, pointee } = t.0.nodes[t.1] {
            let e = p_ext_quals(t.0);
            let n = SNode::Ptr { quals: quals | e.1, aff: aff, parent: parent, pointee: pointee };
            clo_kid(t.0.nodes, t.0.fp, t.0.nm, u, t.1, pointee);
            i_upd(e.0, t.1, n, u);
            let s3 = upd(e.0, t.1, n);
            if let Ok(q) = p_quals(s3) {
                i_fq_type(q.0, d, u);
                let s4 = match parent { Some(p) => match p_fq_type(q.0, d) { Ok(r) => r.0, Err(_) => q.0 }, None => q.0 };
                assert(step(t.0, s4, u));
                i_quals(s4, pointee, quals_of(s4.nodes[pointee]) | q.1.0, u);
            }
        } else if let Ok(q) = p_quals(t.0) {
            i_quals(q.0, t.1, q.1.0, u);
        }
    }
}
pub proof fn i_func_encoding(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_func_encoding(s, d), u), fresh(s, p_func_encoding(s, d))
    decreases MAX_NESTING - d, 20int
{
    def_p_func_encoding(s, d);
    broadcast use group_fr, group_st, group_kids;
    let ext = starts(s.rest, "$$J0"@);
    let s1 = if ext { skip(s, "$$J0"@.len() as int) } else { s };
    if let Ok(c) = p_func_class(s1) {
        let fc = c.1 | (if ext { FC_EXTERNC } else { 0 });
        if let Ok(adj) = p_adjust(c.0, fc) {
            i_intern(adj.0, SNode::Sig { f: default_sig() }, u);
            i_func_type(adj.0, d, fc & (FC_GLOBAL | FC_STATIC) == 0, u);
            let fx = if fc & FC_NOPARAMS == FC_NOPARAMS { intern(adj.0, SNode::Sig { f: default_sig() }) } else { p_func_type(adj.0, d, fc & (FC_GLOBAL | FC_STATIC) == 0) };
            if let Ok(f) = fx {
                let gx = match adj.1 {
                    Some(a) => match sfunc_of(f.0.nodes[f.1]) { Some(sf) => intern(f.0, SNode::Thunk { f: sf, so: a.0, vbp: a.1, vbo: a.2, vtd: a.3 }), None => Err(ErrK::Stuck) },
                    None => Ok(f),
                };
                if let Some(a) = adj.1 {
                    if let Some(sf) = sfunc_of(f.0.nodes[f.1]) {
                        let n = SNode::Thunk { f: sf, so: a.0, vbp: a.1, vbo: a.2, vtd: a.3 };
                        assert forall|k: int| #[trigger] kid(n, k) implies rin(f.0.nodes, k, u) by { assert(kid(f.0.nodes[f.1], k)); clo_kid(f.0.nodes, f.0.fp, f.0.nm, u, f.1, k); }
                        i_intern(f.0, n, u);
                    }
                }
                assert(goes(s, gx, u));
                if let Ok(g) = gx {
                    assert(forall|k: int| #[trigger] kid(set_class_of(g.0.nodes[g.1], fc), k) ==> kid(g.0.nodes[g.1], k)) by { broadcast use kids_class; }
                    i_upd(g.0, g.1, set_class_of(g.0.nodes[g.1], fc), u);
                    i_intern(upd(g.0, g.1, set_class_of(g.0.nodes[g.1], fc)), SNode::Func { name: None, sig: g.1 }, u);
                }
            }
        }
    }
}
pub proof fn i_encoded(s: PS, d: int, q: int, u: W)
    requires cl(s, u), rin(s.nodes, q, u), qs(s, q)
    ensures goes(s, p_encoded(s, d, q), u), fresh(s, p_encoded(s, d, q))
    decreases MAX_NESTING - d, 21int
{
    reveal(qs);
    def_p_encoded(s, d, q);
    broadcast use group_fr, group_st;
    if s.rest.len() == 0 {
    } else if ci(s.rest[0]) >= 48 && ci(s.rest[0]) <= 52 {
        if let Ok(sc) = p_sc(s) { i_var_encoding(sc.0, d, sc.1, u); }
    } else {
        i_func_encoding(s, d, u);
        let c = qc(s.nodes, q);
        let h = s.nodes[c]->Array_nodes.last();
        let w = qw(s.nodes, q, h);
        i_func_encoding(s, d, qw(s.nodes, q, q));
        if let Ok(f) = p_func_encoding(s, d) {
            let a = f.0.nodes;
            fr_at(s.nodes, a, qw(s.nodes, q, q), q);
            fr_at(s.nodes, a, qw(s.nodes, q, q), c);
            fr_at(s.nodes, a, u, h);
            assert(comps_of(a, q) == s.nodes[c]->Array_nodes);
            if let SNode::Conv { tp, target } = a[h] {
                assert(late(a[h]));
                i_func_encoding(s, d, w);
                let r = ret_of(a, f.1);
                let n = SNode::Conv { tp: tp, target: r };
                assert(rin(a, h, u)) by {
                    broadcast use group_kids;
                    clo_kid(s.nodes, s.fp, s.nm, u, q, c);
                    assert(kid(s.nodes[c], h)) by { let xs = s.nodes[c]->Array_nodes; assert(xs[xs.len() - 1] == h); }
                    clo_kid(s.nodes, s.fp, s.nm, u, c, h);
                }
                assert forall|k: int| #[trigger] kid(n, k) implies kid(a[h], k) || (rin(a, k, w) && rin(a, k, u) && rin(a, k, w1(f.1))) by {
                    broadcast use group_kids;
                    if r == Some(k) {
                        let sig = a[f.1]->Func_sig;
                        clo_tree(a, f.0.fp, f.0.nm, u);
                        assert(kid(a[f.1], sig));
                        lemma_tree_kid(a, f.1, sig);
                        assert(kid(a[sig], k));
                        lemma_tree_kid2(a, f.1, sig, k);
                        clo_kid(a, f.0.fp, f.0.nm, u, f.1, sig); clo_kid(a, f.0.fp, f.0.nm, u, sig, k);
                        clo_kid(a, f.0.fp, f.0.nm, w, f.1, sig); clo_kid(a, f.0.fp, f.0.nm, w, sig, k);
                    }
                }
                clo_raise(a, f.0.fp, f.0.nm, h, n, w, u);
                clo_raise(a, f.0.fp, f.0.nm, h, n, w, w1(f.1));
            }
        }
    }
}
pub proof fn i_declarator(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_declarator(s, d), u), fresh(s, p_declarator(s, d))
    decreases MAX_NESTING - d, 22int
{
    def_p_declarator(s, d);
    broadcast use group_fr;
    i_fq_symbol(s, d, u);
    if let Ok(q) = p_fq_symbol(s, d) {
        i_encoded(q.0, d, q.1, u);
        if let Ok(y) = p_encoded(q.0, d, q.1) {
            let a = y.0.nodes;
            let n = set_name_of(a[y.1], q.1);
            assert forall|k: int| #[trigger] kid(n, k) implies kid(a[y.1], k) || (rin(a, k, w1(y.1)) && rin(a, k, u)) by { broadcast use group_kids; }
            clo_raise(a, y.0.fp, y.0.nm, y.1, n, w1(y.1), u);
        }
    }
}
pub proof fn i_typeinfo(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_typeinfo(s, d), u)
    decreases MAX_NESTING - d, 1int
{
    def_p_typeinfo(s, d);
    broadcast use group_fr, group_kids;
    if let Ok(s1) = expect_char(s, '.', ErrK::InvalidTypeinfoName) {
        i_type(s1, d, QualifierMangleMode::Result, u);
        if let Ok(t) = p_type(s1, d, QualifierMangleMode::Result) { i_intern(t.0, SNode::Var { name: Some(SVarName::TypeDescriptor), sc: None, ty: Some(t.1) }, u); }
    }
}
// a node of its own, and the scopes around it
pub proof fn i_named_chain(s: PS, d: int, n: SNode, u: W)
    requires cl(s, u), kf(s.nodes, n, u)
    ensures intern(s, n) matches Ok(r) ==> step(s, r.0, u) && rin(r.0.nodes, r.1, u) && goes(s, p_chain(r.0, d, r.1), u) && goes(r.0, p_chain(r.0, d, r.1), u)
    decreases MAX_NESTING - d, 5int
{
    broadcast use group_fr;
    i_intern(s, n, u);
    if let Ok(r) = intern(s, n) { i_chain(r.0, d, r.1, u); }
}
pub proof fn i_table(s: PS, d: int, k: SpecialIntrinsicKind, u: W)
    requires cl(s, u)
    ensures goes(s, p_table(s, d, k), u)
    decreases MAX_NESTING - d, 6int
{
    def_p_table(s, d, k);
    broadcast use group_fr, group_st, group_kids;
    if let Some(t) = table_name(k) {
        i_named_chain(s, d, named(t), u);
        if let Ok(n) = intern(s, named(t)) {
            if let Ok(q) = p_chain(n.0, d, n.1) {
                if let Ok(quals) = p_quals(skip(q.0, 1)) {
                    i_intern(skip(quals.0, 1), SNode::Table { name: q.1, target: None, quals: quals.1.0 }, u);
                    i_fq_type(quals.0, d, u);
                    if let Ok(t) = p_fq_type(quals.0, d) { i_intern(t.0, SNode::Table { name: q.1, target: Some(t.1), quals: quals.1.0 }, u); }
                }
            }
        }
    }
}
pub proof fn i_guard(s: PS, d: int, thread: bool, u: W)
    requires cl(s, u)
    ensures goes(s, p_guard(s, d, thread), u)
    decreases MAX_NESTING - d, 6int
{
    def_p_guard(s, d, thread);
    broadcast use group_fr, group_st, group_kids;
    let n0 = SNode::Guard { tp: None, thread: thread, scope: 0 };
    i_named_chain(s, d, n0, u);
    if let Ok(g) = intern(s, n0) {
        if let Ok(q) = p_chain(g.0, d, g.1) {
            assert forall|t: PS| step(q.0, t, u) implies goes(s, #[trigger] intern(t, SNode::GuardVar { name: q.1 }), u) by { i_intern(t, SNode::GuardVar { name: q.1 }, u); }
            if let SNode::Guard { tp, thread, scope } = q.0.nodes[g.1] {
                assert forall|t: PS, x: int| st(q.0, t) implies step(q.0, #[trigger] upd(t, g.1, SNode::Guard { tp: tp, thread: thread, scope: x }), u) by { i_upd(t, g.1, SNode::Guard { tp: tp, thread: thread, scope: x }, u); }
            }
        }
    }
}
pub proof fn i_untyped(s: PS, d: int, t: Seq<char>, u: W)
    requires cl(s, u)
    ensures goes(s, p_untyped(s, d, t), u)
    decreases MAX_NESTING - d, 6int
{
    def_p_untyped(s, d, t);
    broadcast use group_fr, group_kids;
    i_named_chain(s, d, named(t), u);
    if let Ok(n) = intern(s, named(t)) {
        if let Ok(q) = p_chain(n.0, d, n.1) {
            if let Ok(s3) = expect_char(q.0, '8', ErrK::InvalidUntypedVariable) { i_intern(s3, SNode::Var { name: Some(SVarName::Q(q.1)), sc: None, ty: None }, u); }
        }
    }
}
pub proof fn i_rtti_base(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_rtti_base(s, d), u)
    decreases MAX_NESTING - d, 6int
{
    def_p_rtti_base(s, d);
    broadcast use group_fr, group_st, group_kids;
    assert forall|t: PS, a: int, b: int, c: int, f: int| st(s, t) implies ((#[trigger] intern(t, SNode::Rtti { tp: None, nv: a, vbp: b, vbt: c, fl: f })) matches Ok(r) ==> goes(s, p_chain(r.0, d, r.1), u)) by {
        i_named_chain(t, d, SNode::Rtti { tp: None, nv: a, vbp: b, vbt: c, fl: f }, u);
    }
    assert forall|t: PS, q: int| step(s, t, u) && rin(t.nodes, q, u) implies goes(s, #[trigger] intern(t, SNode::Var { name: Some(SVarName::Q(q)), sc: None, ty: None }), u) by { i_intern(t, SNode::Var { name: Some(SVarName::Q(q)), sc: None, ty: None }, u); }
}
pub proof fn i_init_fini(s: PS, d: int, dtor: bool, u: W)
    requires cl(s, u)
    ensures goes(s, p_init_fini(s, d, dtor), u)
    decreases MAX_NESTING - d, 23int
{
    def_p_init_fini(s, d, dtor);
    broadcast use group_fr;
    let known = at(s.rest, '?');
    let s0 = if known { skip(s, 1) } else { s };
    i_declarator(s0, d, u);
    if let Ok(y) = p_declarator(s0, d) {
        match y.0.nodes[y.1] {
            SNode::Var { name, sc, ty } => {
                let s2x = if known { expect_str(y.0, "@@"@, ErrK::InvalidInitFiniStub) } else { expect_char(y.0, '@', ErrK::InvalidInitFiniStub) };
                if let Ok(s2) = s2x {
                    i_func_encoding(s2, d, u);
                    if let Ok(f) = p_func_encoding(s2, d) {
                        let n = SNode::DynStruct { tp: None, is_var: true, target: y.1, dtor: dtor };
                        assert(kf(f.0.nodes, n, u) && kf(f.0.nodes, n, w1(f.1))) by { broadcast use group_kids; }
                        i_intern(f.0, n, u);
                        i_intern(f.0, n, w1(f.1));
                        if let Ok(i) = intern(f.0, n) {
                            i_synth(i.0, i.1, u);
                            i_synth(i.0, i.1, w1(f.1));
                            if let Ok(q) = p_synth(i.0, i.1) { i_set_fname(q.0, f.1, q.1, u); }
                        }
                    }
                }
            }
            SNode::Func { name, sig } => {
                if let Some(nm) = name {
                    let n = SNode::DynStruct { tp: None, is_var: false, target: nm, dtor: dtor };
                    assert(kid(y.0.nodes[y.1], nm)) by { broadcast use group_kids; }
                    clo_kid(y.0.nodes, y.0.fp, y.0.nm, u, y.1, nm);
                    clo_tree(y.0.nodes, y.0.fp, y.0.nm, u);
                    lemma_tree_kid(y.0.nodes, y.1, nm);
                    assert(kf(y.0.nodes, n, u) && kf(y.0.nodes, n, w1(y.1))) by { broadcast use group_kids; }
                    i_intern(y.0, n, u);
                    i_intern(y.0, n, w1(y.1));
                    if let Ok(i) = intern(y.0, n) {
                        i_synth(i.0, i.1, u);
                        i_synth(i.0, i.1, w1(y.1));
                        if let Ok(q) = p_synth(i.0, i.1) { i_set_fname(q.0, y.1, q.1, u); }
                    }
                }
            }
            _ => { }
        }
    }
}
pub proof fn i_set_fname(s: PS, f: int, q: int, u: W)
    requires cl(s, u), cl(s, w1(f)), rin(s.nodes, f, u), rin(s.nodes, q, u), q != f
    ensures step(s, set_fname(s, f, q), u)
{
    broadcast use group_fr;
    if let SNode::Func { name, sig } = s.nodes[f] {
        let n = SNode::Func { name: Some(q), sig: sig };
        assert forall|k: int| #[trigger] kid(n, k) implies kid(s.nodes[f], k) || (rin(s.nodes, k, w1(f)) && rin(s.nodes, k, u)) by { broadcast use group_kids; }
        clo_raise(s.nodes, s.fp, s.nm, f, n, w1(f), u);
    }
}
pub proof fn i_vcall(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_vcall(s, d), u)
    decreases MAX_NESTING - d, 6int
{
    def_p_vcall(s, d);
    broadcast use group_fr, group_st, group_kids;
    let n0 = SNode::Vcall { tp: None, off: 0 };
    i_named_chain(s, d, n0, u);
    if let Ok(v) = intern(s, n0) {
        if let Ok(q) = p_chain(v.0, d, v.1) {
            if let Ok(s3) = expect_str(q.0, "$B"@, ErrK::InvalidVcallThunkNode) {
                if let Ok(o) = p_unsigned(s3) {
                    if let SNode::Vcall { tp, off } = o.0.nodes[v.1] {
                        let m = SNode::Vcall { tp: tp, off: o.1 };
                        i_upd(o.0, v.1, m, u);
                        let s4 = upd(o.0, v.1, m);
                        if let Ok(s5) = expect_char(s4, 'A', ErrK::InvalidVcallThunkNode) {
                            if let Ok(cc) = p_cc(s5) {
                                let t = SNode::Thunk { f: SFunc { cc: cc.1, class: FC_NOPARAMS, ..default_sig() }, so: 0, vbp: 0, vbo: 0, vtd: 0 };
                                i_intern(cc.0, t, u);
                                if let Ok(g) = intern(cc.0, t) { i_intern(g.0, SNode::Func { name: Some(q.1), sig: g.1 }, u); }
                            }
                        }
                    }
                }
            }
        }
    }
}
pub proof fn i_rtti_type(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_rtti_type(s, d), u)
    decreases MAX_NESTING - d, 1int
{
    def_p_rtti_type(s, d);
    broadcast use group_fr, group_kids;
    i_type(s, d, QualifierMangleMode::Result, u);
    if let Ok(t) = p_type(s, d, QualifierMangleMode::Result) {
        if let Ok(s2) = expect_str(t.0, "@8"@, ErrK::InvalidSpecialIntrinsic) {
            let n = named("`RTTI Type Descriptor'"@);
            i_intern(s2, n, u);
            if let Ok(r) = intern(s2, n) {
                i_synth(r.0, r.1, u);
                if let Ok(q) = p_synth(r.0, r.1) { i_intern(q.0, SNode::Var { name: Some(SVarName::Q(q.1)), sc: None, ty: Some(t.1) }, u); }
            }
        }
    }
}
pub proof fn i_special(s: PS, d: int, k: SpecialIntrinsicKind, u: W)
    requires cl(s, u)
    ensures goes(s, p_special(s, d, k), u)
    decreases MAX_NESTING - d, 24int
{
    def_p_special(s, d, k);
    i_string(s, u);
    i_table(s, d, k, u);
    i_vcall(s, d, u);
    i_guard(s, d, false, u);
    i_guard(s, d, true, u);
    i_rtti_type(s, d, u);
    i_untyped(s, d, "`RTTI Base Class Array'"@, u);
    i_untyped(s, d, "`RTTI Class Hierarchy Descriptor'"@, u);
    i_rtti_base(s, d, u);
    i_init_fini(s, d, false, u);
    i_init_fini(s, d, true, u);
}
pub proof fn i_special_intrinsic(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures p_special_intrinsic(s, d) matches Ok(t) ==> step(s, t.0, u) && rin_o(t.0.nodes, t.1, u)
    decreases MAX_NESTING - d, 25int
{
    def_p_special_intrinsic(s, d);
    broadcast use group_fr;
    if let Some(k) = sik_of(s.rest) { i_special(skip(s, sik_len(k)), d, k, u); }
}
pub proof fn i_parse(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_parse(s, d), u)
    decreases MAX_NESTING - d, 0int
{
    def_p_parse(s, d);
    if enter(d) { i_parse_body(s, d + 1, u); }
}
pub proof fn i_parse_body(s: PS, d: int, u: W)
    requires cl(s, u)
    ensures goes(s, p_parse_body(s, d), u)
    decreases MAX_NESTING - d, 50int
{
    def_p_parse_body(s, d);
    broadcast use group_fr;
    if starts(s.rest, "."@) { i_typeinfo(s, d, u); }
    else if starts(s.rest, "??@"@) { i_md5(s, u); }
    else if let Ok(s1) = expect_char(s, '?', ErrK::Eof) {
        i_special_intrinsic(s1, d, u);
        if let Ok(r) = p_special_intrinsic(s1, d) { i_declarator(r.0, d, u); }
    }
}

// ---- for the contracts of the parser: each production leaves a tree behind

pub proof fn wf_cl(s: PS)
    requires wf_ps(s)
    ensures cl(s, w0())
{
    reveal(clo); reveal(refs_ok);
    let a = s.nodes;
    assert forall|i: int, h: int| 0 <= i < a.len() && #[trigger] kid(a[i], h) && w0().has(h) implies w0().has(i) by { lemma_tree_kid(a, i, h); }
}
pub broadcast proof fn t_md5(s: PS)
    requires wf_ps(s)
    ensures (#[trigger] p_md5(s)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_md5(s, w0()); if let Ok(t) = p_md5(s) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_template(s: PS, d: int, nbb: u8)
    requires wf_ps(s)
    ensures (#[trigger] p_template(s, d, nbb)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_template(s, d, nbb, w0()); if let Ok(t) = p_template(s, d, nbb) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_template_body(s: PS, d: int, nbb: u8)
    requires wf_ps(s)
    ensures (#[trigger] p_template_body(s, d, nbb)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_template_body(s, d, nbb, w0()); if let Ok(t) = p_template_body(s, d, nbb) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_unq_type(s: PS, d: int, memorize: bool)
    requires wf_ps(s)
    ensures (#[trigger] p_unq_type(s, d, memorize)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_unq_type(s, d, memorize, w0()); if let Ok(t) = p_unq_type(s, d, memorize) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_unq_symbol(s: PS, d: int, nbb: u8)
    requires wf_ps(s)
    ensures (#[trigger] p_unq_symbol(s, d, nbb)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_unq_symbol(s, d, nbb, w0()); if let Ok(t) = p_unq_symbol(s, d, nbb) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_local_scope(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_local_scope(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_local_scope(s, d, w0()); if let Ok(t) = p_local_scope(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_scope_piece(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_scope_piece(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_scope_piece(s, d, w0()); if let Ok(t) = p_scope_piece(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_chain(s: PS, d: int, h: int)
    requires wf_ps(s), 0 <= h < s.nodes.len()
    ensures (#[trigger] p_chain(s, d, h)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_chain(s, d, h, w0()); if let Ok(t) = p_chain(s, d, h) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_fq_type(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_fq_type(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_fq_type(s, d, w0()); if let Ok(t) = p_fq_type(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_fq_symbol(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_fq_symbol(s, d)) matches Ok(t) ==> tree(t.0.nodes) && qs(t.0, t.1)
{ wf_cl(s); i_fq_symbol(s, d, w0()); if let Ok(t) = p_fq_symbol(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_type(s: PS, d: int, qmm: QualifierMangleMode)
    requires wf_ps(s)
    ensures (#[trigger] p_type(s, d, qmm)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_type(s, d, qmm, w0()); if let Ok(t) = p_type(s, d, qmm) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_type_body(s: PS, d: int, qmm: QualifierMangleMode)
    requires wf_ps(s)
    ensures (#[trigger] p_type_body(s, d, qmm)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_type_body(s, d, qmm, w0()); if let Ok(t) = p_type_body(s, d, qmm) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_type_kind(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_type_kind(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_type_kind(s, d, w0()); if let Ok(t) = p_type_kind(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_custom(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_custom(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_custom(s, d, w0()); if let Ok(t) = p_custom(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_class(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_class(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_class(s, d, w0()); if let Ok(t) = p_class(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_ptr(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_ptr(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_ptr(s, d, w0()); if let Ok(t) = p_ptr(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_member_ptr(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_member_ptr(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_member_ptr(s, d, w0()); if let Ok(t) = p_member_ptr(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_func_type(s: PS, d: int, this: bool)
    requires wf_ps(s)
    ensures (#[trigger] p_func_type(s, d, this)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_func_type(s, d, this, w0()); if let Ok(t) = p_func_type(s, d, this) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_params(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_params(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_params(s, d, w0()); if let Ok(t) = p_params(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_array(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_array(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_array(s, d, w0()); if let Ok(t) = p_array(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_tparam_value(s: PS, d: int, auto: bool)
    requires wf_ps(s)
    ensures (#[trigger] p_tparam_value(s, d, auto)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_tparam_value(s, d, auto, w0()); if let Ok(t) = p_tparam_value(s, d, auto) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_tparam_member_fn(s: PS, d: int, k: int)
    requires wf_ps(s)
    ensures (#[trigger] p_tparam_member_fn(s, d, k)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_tparam_member_fn(s, d, k, w0()); if let Ok(t) = p_tparam_member_fn(s, d, k) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_tparams(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_tparams(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_tparams(s, d, w0()); if let Ok(t) = p_tparams(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_var_encoding(s: PS, d: int, sc: StorageClass)
    requires wf_ps(s)
    ensures (#[trigger] p_var_encoding(s, d, sc)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_var_encoding(s, d, sc, w0()); if let Ok(t) = p_var_encoding(s, d, sc) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_func_encoding(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_func_encoding(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_func_encoding(s, d, w0()); if let Ok(t) = p_func_encoding(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_encoded(s: PS, d: int, q: int)
    requires wf_ps(s), 0 <= q < s.nodes.len(), qs(s, q)
    ensures (#[trigger] p_encoded(s, d, q)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_encoded(s, d, q, w0()); if let Ok(t) = p_encoded(s, d, q) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_declarator(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_declarator(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_declarator(s, d, w0()); if let Ok(t) = p_declarator(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_typeinfo(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_typeinfo(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_typeinfo(s, d, w0()); if let Ok(t) = p_typeinfo(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_table(s: PS, d: int, k: SpecialIntrinsicKind)
    requires wf_ps(s)
    ensures (#[trigger] p_table(s, d, k)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_table(s, d, k, w0()); if let Ok(t) = p_table(s, d, k) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_guard(s: PS, d: int, thread: bool)
    requires wf_ps(s)
    ensures (#[trigger] p_guard(s, d, thread)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_guard(s, d, thread, w0()); if let Ok(t) = p_guard(s, d, thread) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_untyped(s: PS, d: int, t: Seq<char>)
    requires wf_ps(s)
    ensures (#[trigger] p_untyped(s, d, t)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_untyped(s, d, t, w0()); if let Ok(t) = p_untyped(s, d, t) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_rtti_base(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_rtti_base(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_rtti_base(s, d, w0()); if let Ok(t) = p_rtti_base(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_init_fini(s: PS, d: int, dtor: bool)
    requires wf_ps(s)
    ensures (#[trigger] p_init_fini(s, d, dtor)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_init_fini(s, d, dtor, w0()); if let Ok(t) = p_init_fini(s, d, dtor) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_vcall(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_vcall(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_vcall(s, d, w0()); if let Ok(t) = p_vcall(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_rtti_type(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_rtti_type(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_rtti_type(s, d, w0()); if let Ok(t) = p_rtti_type(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_special(s: PS, d: int, k: SpecialIntrinsicKind)
    requires wf_ps(s)
    ensures (#[trigger] p_special(s, d, k)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_special(s, d, k, w0()); if let Ok(t) = p_special(s, d, k) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_special_intrinsic(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_special_intrinsic(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_special_intrinsic(s, d, w0()); if let Ok(t) = p_special_intrinsic(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_parse(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_parse(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_parse(s, d, w0()); if let Ok(t) = p_parse(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
pub broadcast proof fn t_parse_body(s: PS, d: int)
    requires wf_ps(s)
    ensures (#[trigger] p_parse_body(s, d)) matches Ok(t) ==> tree(t.0.nodes)
{ wf_cl(s); i_parse_body(s, d, w0()); if let Ok(t) = p_parse_body(s, d) { clo_tree(t.0.nodes, t.0.fp, t.0.nm, w0()); } }
// after the arguments of a template are in place, before its name is memorized
pub proof fn t_template_mid(s: PS, d: int)
    requires wf_ps(s)
    ensures
        expect_str(s, "?$"@, ErrK::InvalidTemplateInstantiationName) matches Ok(s1) ==>
        p_unq_symbol(PS { fp: Seq::empty(), nm: Seq::empty(), ..s1 }, d, NBB_SIMPLE) matches Ok(id) ==>
        p_tparams(id.0, d) matches Ok(tp) ==> tree(tp.0.nodes.update(id.1, set_tparams_of(tp.0.nodes[id.1], tp.1)))
{
    broadcast use group_fr;
    wf_cl(s);
    let u = w0();
    if let Ok(s1) = expect_str(s, "?$"@, ErrK::InvalidTemplateInstantiationName) {
        let inner = PS { fp: Seq::empty(), nm: Seq::empty(), ..s1 };
        clo_empty(s.nodes, s.fp, s.nm, u);
        i_unq_symbol(inner, d, NBB_SIMPLE, u);
        if let Ok(id) = p_unq_symbol(inner, d, NBB_SIMPLE) {
            i_tparams(id.0, d, u);
            i_tparams(id.0, d, w1(id.1));
            if let Ok(tp) = p_tparams(id.0, d) {
                let n = set_tparams_of(tp.0.nodes[id.1], tp.1);
                assert forall|k: int| #[trigger] kid(n, k) implies kid(tp.0.nodes[id.1], k) || (rin(tp.0.nodes, k, w1(id.1)) && rin(tp.0.nodes, k, u)) by { broadcast use group_kids; }
                clo_raise(tp.0.nodes, tp.0.fp, tp.0.nm, id.1, n, w1(id.1), u);
            }
        }
    }
}
// a node changed in place, its children the same or fewer
pub proof fn tree_upd(a: Seq<SNode>, h: int, n: SNode)
    requires tree(a), 0 <= h < a.len(), forall|k: int| #[trigger] kid(n, k) ==> kid(a[h], k)
    ensures tree(a.update(h, n))
{
    reveal(tree);
    let b = a.update(h, n);
    let r = choose|r: Seq<nat>| ranked(a, r);
    assert(ranked(b, r)) by {
        assert forall|i: int, k: int| 0 <= i < b.len() && #[trigger] kid(b[i], k) implies 0 <= k < b.len() && r[k] < r[i] by { assert(kid(a[i], k)); }
    }
}
pub proof fn tree_upd_vcall(a: Seq<SNode>, h: int, n: SNode)
    requires tree(a), 0 <= h < a.len(), n is Vcall
    ensures tree(a.update(h, n))
{ broadcast use kids_none; tree_upd(a, h, n); }
pub proof fn tree_upd_ptr(a: Seq<SNode>, h: int, n: SNode)
    requires tree(a), 0 <= h < a.len(), n is Ptr, a[h] is Ptr, n->Ptr_parent == a[h]->Ptr_parent, n->Ptr_pointee == a[h]->Ptr_pointee
    ensures tree(a.update(h, n))
{ broadcast use group_kids; tree_upd(a, h, n); }
// a node whose children are in place
pub proof fn ok_kf(a: Seq<SNode>, n: SNode)
    requires node_ok(a, n)
    ensures kf(a, n, w0())
{
    reveal(node_ok);
    broadcast use group_kids;
    if let SNode::Array { nodes } = n {
        assert forall|i: int| #![trigger nodes[i]] 0 <= i < nodes.len() implies rin(a, nodes[i], w0()) by { assert(kin(a, nodes[i], K::Any)); }
        kids_arr(a, nodes, w0());
    }
}
pub proof fn tree_empty()
    ensures tree(Seq::<SNode>::empty())
{ reveal(tree); assert(ranked(Seq::<SNode>::empty(), Seq::<nat>::empty())); }
