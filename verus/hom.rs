// Flags change the text, never the parse (C13). Every production, run on a state whose names carry the text that
// the caller's flags give them, does exactly what it does on the same state without that text and with the default
// flags: it consumes the same characters, returns the same handles and values, and builds the same tree. The lemma
// of each production (h_...) is generated from its definition in spec/parse.rs; what they rest on is here.
use crate::lem::*;
use crate::demangler::QualifierMangleMode;
use crate::nodes::*;
use core::result::Result;

// the state as the default flags see it
pub open spec fn er(s: PS) -> PS { PS { rest: s.rest, nodes: erased(s.nodes), fp: s.fp, nm: s.nm, fl: 0 } }

pub open spec fn inr(h: int, n: nat) -> bool { 0 <= h < n }
pub open spec fn inro(h: Option<int>, n: nat) -> bool { h matches Some(k) ==> inr(k, n) }
pub open spec fn inrs(s: Seq<int>, n: nat) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> inr(s[i], n) }
pub open spec fn inrf(f: SFunc, n: nat) -> bool { inro(f.ret, n) && inro(f.params, n) }
// the handles a node holds are handles of the table
pub open spec fn okn(x: SNode, n: nat) -> bool {
    match x {
        SNode::Sig { f } => inrf(f, n),
        SNode::Thunk { f, .. } => inrf(f, n),
        SNode::Ptr { parent, pointee, .. } => inro(parent, n) && inr(pointee, n),
        SNode::Tag { name, .. } => inr(name, n),
        SNode::Arr { elem, dims, .. } => inr(elem, n) && inr(dims, n),
        SNode::Custom { ident, .. } => inr(ident, n),
        SNode::Vcall { tp, .. } => inro(tp, n),
        SNode::DynStruct { tp, target, .. } => inro(tp, n) && inr(target, n),
        SNode::Named { tp, .. } => inro(tp, n),
        SNode::Intrinsic { tp, .. } => inro(tp, n),
        SNode::LitOp { tp, .. } => inro(tp, n),
        SNode::Guard { tp, .. } => inro(tp, n),
        SNode::Conv { tp, target } => inro(tp, n) && inro(target, n),
        SNode::Structor { tp, class, .. } => inro(tp, n) && inro(class, n),
        SNode::Rtti { tp, .. } => inro(tp, n),
        SNode::Array { nodes } => inrs(nodes, n),
        SNode::QName { comps } => inr(comps, n),
        SNode::TRef { symbol, .. } => inro(symbol, n),
        SNode::Md5 { name } => inr(name, n),
        SNode::Table { name, target, .. } => inr(name, n) && inro(target, n),
        SNode::GuardVar { name } => inr(name, n),
        SNode::Str { name, .. } => inro(name, n),
        SNode::Var { name, ty, .. } => inro(ty, n) && (name matches Some(SVarName::Q(q)) ==> inr(q, n)),
        SNode::Func { name, sig } => inro(name, n) && inr(sig, n),
        SNode::Prim { .. } | SNode::Int { .. } => true,
    }
}
#[verifier::opaque]
pub open spec fn closed(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>) -> bool {
    &&& forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> okn(a[i], a.len())
    &&& inrs(fp, a.len())
    &&& inrs(nm, a.len())
}
pub open spec fn cls(s: PS) -> bool { closed(s.nodes, s.fp, s.nm) }
// how printing fails: for want of room, or on what is not a tree (which the contracts of the code exclude: what it
// prints is a tree)
pub open spec fn bad(e: ErrK) -> bool { e is Oom || e is Stuck }
// `e` is how some printing fails
pub open spec fn prints(e: ErrK) -> bool {
    ||| exists|nodes: Seq<SNode>, flags: u16, h: int, ob: Seq<char>| #[trigger] render(nodes, flags, h, ob) == Err::<Seq<char>, ErrK>(e)
    ||| exists|nodes: Seq<SNode>, flags: u16, h: int, n: int| #[trigger] o_local(nodes, flags, h, n) == Err::<Seq<char>, ErrK>(e)
}

pub open spec fn later(s: PS, t: PS) -> bool { cls(t) && s.nodes.len() <= t.nodes.len() }
pub open spec fn homx<T>(s: PS, a: PR<T>, b: PR<T>) -> bool {
    match a {
        Ok(r) => b == Ok::<(PS, T), ErrK>((er(r.0), r.1)) && later(s, r.0),
        Err(e) => b == Err::<(PS, T), ErrK>(e) || prints(e),
    }
}
pub open spec fn hom(s: PS, a: PR<int>, b: PR<int>) -> bool { homx(s, a, b) && (a matches Ok(r) ==> inr(r.1, r.0.nodes.len())) }
pub open spec fn homo(s: PS, a: PR<Option<int>>, b: PR<Option<int>>) -> bool { homx(s, a, b) && (a matches Ok(r) ==> inro(r.1, r.0.nodes.len())) }
pub open spec fn homp(s: PS, a: PR<(Option<int>, bool)>, b: PR<(Option<int>, bool)>) -> bool { homx(s, a, b) && (a matches Ok(r) ==> inro(r.1.0, r.0.nodes.len())) }
pub open spec fn homs(s: PS, a: PR<Seq<int>>, b: PR<Seq<int>>) -> bool { homx(s, a, b) && (a matches Ok(r) ==> inrs(r.1, r.0.nodes.len())) }
pub open spec fn homr(s: PS, a: core::result::Result<PS, ErrK>, b: core::result::Result<PS, ErrK>) -> bool {
    match a {
        Ok(r) => b == Ok::<PS, ErrK>(er(r)) && later(s, r),
        Err(e) => b == Err::<PS, ErrK>(e) || prints(e),
    }
}
pub open spec fn homt<T>(s: PS, a: (PS, T), b: (PS, T)) -> bool { b == (er(a.0), a.1) && later(s, a.0) }
pub open spec fn hom1(s: PS, a: PS, b: PS) -> bool { b == er(a) && later(s, a) }

// ---- the table

pub broadcast proof fn er_len(a: Seq<SNode>) ensures (#[trigger] erased(a)).len() == a.len() {}
pub broadcast proof fn er_at(a: Seq<SNode>, h: int) requires 0 <= h < a.len() ensures #[trigger] erased(a)[h] == erase(a[h]) {}
pub broadcast proof fn er_push(a: Seq<SNode>, n: SNode) ensures #[trigger] erased(a.push(n)) == erased(a).push(erase(n))
{ assert(erased(a.push(n)) =~= erased(a).push(erase(n))); }
pub broadcast proof fn er_upd(a: Seq<SNode>, h: int, n: SNode) ensures #[trigger] erased(a.update(h, n)) == erased(a).update(h, erase(n))
{
    if 0 <= h < a.len() { assert(erased(a.update(h, n)) =~= erased(a).update(h, erase(n))); }
    else { assert(a.update(h, n) =~= a); assert(erased(a).update(h, erase(n)) =~= erased(a)); }
}
pub broadcast proof fn er_twice(a: Seq<SNode>) ensures #[trigger] erased(erased(a)) == erased(a)
{ assert(erased(erased(a)) =~= erased(a)); }
pub broadcast proof fn cls_at(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, h: int)
    requires #[trigger] closed(a, fp, nm), 0 <= h < a.len()
    ensures okn(#[trigger] a[h], a.len())
{ reveal(closed); }
pub broadcast proof fn cls_fp(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>)
    requires #[trigger] closed(a, fp, nm)
    ensures inrs(fp, a.len()), inrs(nm, a.len())
{ reveal(closed); }
pub broadcast proof fn cls_push(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, n: SNode)
    requires closed(a, fp, nm), okn(n, a.len() + 1)
    ensures #[trigger] closed(a.push(n), fp, nm)
{ reveal(closed); assert forall|i: int| #![trigger a.push(n)[i]] 0 <= i < a.push(n).len() implies okn(a.push(n)[i], a.push(n).len()) by { if i < a.len() { assert(okn(a[i], a.len())); } } }
pub broadcast proof fn cls_upd(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, h: int, n: SNode)
    requires closed(a, fp, nm), okn(n, a.len())
    ensures #[trigger] closed(a.update(h, n), fp, nm)
{
    reveal(closed);
    assert(a.update(h, n).len() == a.len());
    assert forall|i: int| #![trigger a.update(h, n)[i]] 0 <= i < a.len() implies okn(a.update(h, n)[i], a.len()) by { assert(okn(a[i], a.len())); }
}
pub proof fn cls_tables(a: Seq<SNode>, fp: Seq<int>, nm: Seq<int>, fp2: Seq<int>, nm2: Seq<int>)
    requires closed(a, fp, nm), inrs(fp2, a.len()), inrs(nm2, a.len())
    ensures closed(a, fp2, nm2)
{ reveal(closed); }
pub broadcast group group_er { er_len, er_at, er_push, er_upd, er_twice, cls_at, cls_fp, cls_push, cls_upd }

// ---- the productions that look at the text of a name or make it

pub proof fn h_name_known(a: Seq<SNode>, nm: Seq<int>, t: Seq<char>, i: int)
    requires inrs(nm, a.len())
    ensures name_known(erased(a), nm, t, i) == name_known(a, nm, t, i)
    decreases nm.len() - i
{
    broadcast use group_er;
    if 0 <= i < nm.len() { h_name_known(a, nm, t, i + 1); let k = nm[i]; assert(erased(a)[k] == erase(a[k])); }
}
pub proof fn h_p_memorize(s: PS, t: Seq<char>, st: Option<Seq<char>>)
    requires cls(s)
    ensures homr(s, p_memorize(s, t, st), p_memorize(er(s), t, None))
{
    reveal(p_memorize);
    broadcast use group_er;
    h_name_known(s.nodes, s.nm, t, 0);
    if let Ok(r) = intern(s, SNode::Named { tp: None, name: t, styled: st }) { cls_tables(r.0.nodes, r.0.fp, r.0.nm, r.0.fp, s.nm.push(r.1)); }
}
pub proof fn h_render(a: Seq<SNode>, h: int, ob: Seq<char>)
    requires 0 <= h < a.len()
    ensures render(erased(a), 0, h, ob) == render(a, 0, h, ob)
{ broadcast use group_er; }
pub proof fn h_p_memorize_ident(s: PS, h: int)
    requires cls(s), 0 <= h < s.nodes.len()
    ensures homr(s, p_memorize_ident(s, h), p_memorize_ident(er(s), h))
{
    reveal(p_memorize_ident);
    h_render(s.nodes, h, Seq::empty());
    let x0 = render(s.nodes, 0, h, Seq::empty());
    let x1 = render(s.nodes, s.fl, h, Seq::empty());
    if let Ok(t) = x0 {
        h_p_memorize(s, t, None);
        if let Ok(t2) = x1 { h_p_memorize(s, t, Some(t2)); }
    }
}
pub proof fn h_local(s: PS, h: int, n: int)
    requires cls(s), 0 <= h < s.nodes.len()
    ensures o_local(erased(s.nodes), 0, h, n) == o_local(s.nodes, 0, h, n)
{
    reveal(o_local);
    h_render(s.nodes, h, Seq::empty());
    if let Ok(ob) = put(Seq::empty(), "`"@) { h_render(s.nodes, h, ob); }
}
pub proof fn h_p_local_scope(s: PS, d: int)
    requires cls(s)
    ensures hom(s, p_local_scope(s, d), p_local_scope(er(s), d))
    decreases MAX_NESTING - d, 1int
{
    def_p_local_scope(s, d); def_p_local_scope(er(s), d);
    broadcast use group_er;
    if let Ok(s1) = expect_char(s, '?', ErrK::InvalidLocallyScopedNamePiece) {
        h_p_number(s1);
        if let Ok(n) = p_number(s1) {
            if !n.1.1 {
                if let Ok(s2) = expect_char(n.0, '?', ErrK::InvalidLocallyScopedNamePiece) {
                    h_p_parse(s2, d);
                    if let Ok(r) = p_parse(s2, d) {
                        h_local(r.0, r.1, n.1.0);
                        let x0 = o_local(r.0.nodes, 0, r.1, n.1.0);
                        let x1 = o_local(r.0.nodes, r.0.fl, r.1, n.1.0);
                        assert(x0 is Err ==> prints(x0->Err_0));
                        assert(x1 is Err ==> prints(x1->Err_0));
                    }
                }
            }
        }
    }
}

// ---- the theorem

// under any flags a name denotes what it denotes under the default ones, or printing a part of it fails
pub proof fn thm_parse(input: Seq<char>, flags: u16)
    ensures match p_parse(start(input, flags), 0) {
        Ok(r) => p_parse(start(input, 0), 0) == Ok::<(PS, int), ErrK>((er(r.0), r.1)),
        Err(e) => p_parse(start(input, 0), 0) == Err::<(PS, int), ErrK>(e) || prints(e),
    }
{
    let s = start(input, flags);
    assert(cls(s)) by { reveal(closed); }
    assert(er(s) == start(input, 0)) by { assert(erased(s.nodes) =~= s.nodes); }
    h_p_parse(s, 0);
}
pub proof fn lemma_prints(e: ErrK)
    ensures prints(e) ==> bad(e)
{
    assert forall|nodes: Seq<SNode>, flags: u16, h: int, ob: Seq<char>| #[trigger] render(nodes, flags, h, ob) == Err::<Seq<char>, ErrK>(e) implies bad(e) by {
        e_o_node(mkcx(nodes, flags), norm(flags, nodes[h]), ob);
    }
    assert forall|nodes: Seq<SNode>, flags: u16, h: int, n: int| #[trigger] o_local(nodes, flags, h, n) == Err::<Seq<char>, ErrK>(e) implies bad(e) by {
        reveal(o_local);
        if let Ok(ob) = put(Seq::empty(), "`"@) { e_o_node(mkcx(nodes, flags), norm(flags, nodes[h]), ob); }
    }
}
// so two flag sets that both give an answer denote the same tree, and leave the same text unread
pub proof fn thm_flags_change_text_only(input: Seq<char>, f: u16, g: u16)
    ensures (p_parse(start(input, f), 0) matches Ok(x) && p_parse(start(input, g), 0) matches Ok(y)) ==> {
        let x = p_parse(start(input, f), 0)->Ok_0;
        let y = p_parse(start(input, g), 0)->Ok_0;
        x.1 == y.1 && x.0.rest == y.0.rest && erased(x.0.nodes) == erased(y.0.nodes) && x.0.fp == y.0.fp && x.0.nm == y.0.nm
    }
{ thm_parse(input, f); thm_parse(input, g); }
// a name that is refused under one flag set and not under another is refused for want of room
pub proof fn thm_flags_refuse_for_room_only(input: Seq<char>, f: u16, g: u16)
    ensures (p_parse(start(input, f), 0) is Ok && p_parse(start(input, g), 0) is Err) ==> bad(p_parse(start(input, g), 0)->Err_0)
{ thm_parse(input, f); thm_parse(input, g); if p_parse(start(input, g), 0) is Err { lemma_prints(p_parse(start(input, g), 0)->Err_0); } }
// from one input to the answer: if flags f give an answer, flags g give one too or run out of room
pub proof fn thm_accepted_alike(input: Seq<char>, f: u16, g: u16)
    ensures match (demangled(input, f), demangled(input, g)) {
        (Ok(_), Err(e)) => bad(e),
        (Err(e), Ok(_)) => bad(e),
        (Err(e1), Err(e2)) => e1 == e2 || bad(e1) || bad(e2),
        _ => true,
    }
{
    reveal(demangled);
    thm_parse(input, f); thm_parse(input, g);
    if let Err(e) = p_parse(start(input, f), 0) { lemma_prints(e); }
    if let Err(e) = p_parse(start(input, g), 0) { lemma_prints(e); }
    if let Ok(r) = p_parse(start(input, f), 0) { e_o_node(mkcx(r.0.nodes, f), norm(f, r.0.nodes[r.1]), Seq::empty()); }
    if let Ok(r) = p_parse(start(input, g), 0) { e_o_node(mkcx(r.0.nodes, g), norm(g, r.0.nodes[r.1]), Seq::empty()); }
}
