// Primitives of the specification language.
pub open spec fn ulen(s: Seq<char>) -> int { vstd::utf8::encode_utf8(s).len() as int }
pub uninterp spec fn alnum(c: char) -> bool;
pub open spec fn digit_char(d: int) -> char { (48 + d) as char }
pub open spec fn dec_nat(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit_char(n as int)] } else { dec_nat(n / 10).push(digit_char((n % 10) as int)) }
}
pub open spec fn dec(n: int) -> Seq<char> { if n < 0 { seq!['-'].add(dec_nat((-n) as nat)) } else { dec_nat(n as nat) } }
pub open spec fn hexd(d: int) -> char { if d < 10 { (48 + d) as char } else { (55 + d) as char } }
pub open spec fn hexs(n: int) -> Seq<char> decreases n { if n < 16 { seq![hexd(n)] } else { hexs(n / 16).push(hexd(n % 16)) } }
pub open spec fn hex2(n: int) -> Seq<char> { if n < 16 { seq![hexd(0), hexd(n)] } else { hexs(n) } }
pub open spec fn chr(n: int) -> char { n as char }
pub open spec fn one<T>(t: T) -> Seq<T> { seq![t] }
pub open spec fn rev<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn seq_eq<T>(a: Seq<T>, b: Seq<T>) -> bool { a =~= b }
pub open spec fn seq_map<T, U>(s: Seq<T>, f: spec_fn(T) -> U) -> Seq<U> { Seq::new(s.len(), |i: int| f(s[i])) }
pub open spec fn emod(x: int, m: int) -> int { x % m }
// The height of a node in the tree, as far as printing descends: any ranking of the table that decreases
// from a node to each of its children gives one. On a table with a cycle there is none, and all is 0.
pub open spec fn opt_seq(o: Option<int>) -> Seq<int> { match o { Some(h) => seq![h], None => Seq::empty() } }
pub open spec fn kids_of(n: SNode) -> Seq<int> {
    match n {
        SNode::Sig { f } => opt_seq(f.ret).add(opt_seq(f.params)),
        SNode::Thunk { f, .. } => opt_seq(f.ret).add(opt_seq(f.params)),
        SNode::Ptr { parent, pointee, .. } => opt_seq(parent).push(pointee),
        SNode::Tag { name, .. } => seq![name],
        SNode::Arr { elem, .. } => seq![elem],
        SNode::Custom { ident, .. } => seq![ident],
        SNode::DynStruct { target, .. } => seq![target],
        SNode::Named { tp, .. } => opt_seq(tp),
        SNode::Intrinsic { tp, .. } => opt_seq(tp),
        SNode::LitOp { tp, .. } => opt_seq(tp),
        SNode::Conv { tp, target } => opt_seq(tp).add(opt_seq(target)),
        SNode::Structor { tp, class, .. } => opt_seq(tp).add(opt_seq(class)),
        SNode::Array { nodes } => nodes,
        SNode::QName { comps } => seq![comps],
        SNode::TRef { symbol, .. } => opt_seq(symbol),
        SNode::Md5 { name } => seq![name],
        SNode::Table { name, target, .. } => seq![name].add(opt_seq(target)),
        SNode::GuardVar { name } => seq![name],
        SNode::Var { name, ty, .. } => opt_seq(ty).add(match name { Some(SVarName::Q(q)) => seq![q], _ => Seq::empty() }),
        SNode::Func { name, sig } => opt_seq(name).push(sig),
        _ => Seq::empty(),
    }
}
pub open spec fn kid(n: SNode, h: int) -> bool { kids_of(n).contains(h) }
pub open spec fn ranked(nodes: Seq<SNode>, r: Seq<nat>) -> bool {
    r.len() == nodes.len() && forall|i: int, h: int| 0 <= i < nodes.len() && #[trigger] kid(nodes[i], h) ==> 0 <= h < nodes.len() && r[h] < r[i]
}
#[verifier::opaque]
pub open spec fn tree(nodes: Seq<SNode>) -> bool { exists|r: Seq<nat>| ranked(nodes, r) }
pub open spec fn sup(r: Seq<nat>, ks: Seq<int>) -> nat decreases ks.len() {
    if ks.len() == 0 { 0 } else {
        let a = sup(r, ks.drop_last());
        if 0 <= ks.last() < r.len() && r[ks.last()] + 1 > a { r[ks.last()] + 1 } else { a }
    }
}
#[verifier::opaque]
pub open spec fn height(nodes: Seq<SNode>, ks: Seq<int>) -> nat {
    if tree(nodes) { sup(choose|r: Seq<nat>| ranked(nodes, r), ks) } else { 0 }
}
pub open spec fn nrank(nodes: Seq<SNode>, n: SNode) -> nat { height(nodes, kids_of(n)) }
pub open spec fn desc(nodes: Seq<SNode>, n: SNode, h: int) -> bool { 0 <= h < nodes.len() && nrank(nodes, nodes[h]) < nrank(nodes, n) }
