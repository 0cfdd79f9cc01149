// How the program's data is seen by the specification.
use crate::cache::*;
use crate::*;
use crate::nodes::*;
use crate::flags::*;
pub open spec fn hi<T>(h: NodeHandle<T>) -> int { h.id.n as int }
pub open spec fn ho<T>(o: Option<NodeHandle<T>>) -> Option<int> { match o { Some(h) => Some(hi(h)), None => None } }
pub open spec fn hs<T>(s: Seq<NodeHandle<T>>) -> Seq<int> { Seq::new(s.len(), |i: int| hi(s[i])) }
pub open spec fn so(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn is64(s: Seq<i64>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub open spec fn sf(f: FunctionSignatureNode) -> SFunc {
    SFunc { quals: f.quals.b, cc: f.call_convention, class: f.function_class.b, refq: f.ref_qualifier, ret: ho(f.return_type), variadic: f.is_variadic, params: ho(f.params), noexc: f.is_noexcept }
}
pub open spec fn svn(n: Option<VariableSymbolName>) -> Option<SVarName> {
    match n { None => None, Some(VariableSymbolName::Qualified(q)) => Some(SVarName::Q(hi(q))), Some(VariableSymbolName::TypeDescriptor) => Some(SVarName::TypeDescriptor) }
}
pub open spec fn tpo(t: TemplateParameters) -> Option<int> { ho(t.0) }
pub broadcast proof fn lemma_hs_push<T>(s: Seq<NodeHandle<T>>, x: NodeHandle<T>)
    ensures #[trigger] hs(s.push(x)) == hs(s).push(hi(x))
{
    assert(hs(s.push(x)) =~= hs(s).push(hi(x)));
}
pub open spec fn byi(s: Seq<u8>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
pub broadcast proof fn lemma_is64_push(s: Seq<i64>, x: i64)
    ensures #[trigger] is64(s.push(x)) == is64(s).push(x as int)
{ assert(is64(s.push(x)) =~= is64(s).push(x as int)); }
pub broadcast proof fn lemma_is64_empty(s: Seq<i64>)
    ensures s.len() == 0 ==> #[trigger] is64(s) == Seq::<int>::empty()
{ if s.len() == 0 { assert(is64(s) =~= Seq::<int>::empty()); } }
pub open spec fn tp_rest(n: int, s: PS, d: int, auto: bool, acc: Seq<int>) -> PR<Seq<int>> {
    match p_tparam_value(s, d, auto) {
        Ok(r) => if r.0.rest.len() >= n { Err(ErrK::Stuck) } else { p_tparams_from(r.0, d, acc.push(r.1)) },
        Err(e) => Err(e),
    }
}
pub proof fn lemma_tp_lits()
    ensures
        "$S"@.len() == 2,
        "$$V"@.len() == 3,
        "$$$V"@.len() == 4,
        "$$Z"@.len() == 3,
        "$M"@.len() == 2,
        "$$Y"@.len() == 3,
        "$$B"@.len() == 3,
        "$$C"@.len() == 3,
        "$E?"@.len() == 3,
        "$E"@.len() == 2,
        "?"@.len() == 1,
        "1"@.len() == 1, "1"@.last() == '1', "$1"@.len() == 2, "$1"@.last() == '1',
        "H"@.len() == 1, "H"@.last() == 'H', "$H"@.len() == 2, "$H"@.last() == 'H',
        "I"@.len() == 1, "I"@.last() == 'I', "$I"@.len() == 2, "$I"@.last() == 'I',
        "J"@.len() == 1, "J"@.last() == 'J', "$J"@.len() == 2, "$J"@.last() == 'J',
        "F"@.len() == 1, "F"@.last() == 'F', "$F"@.len() == 2, "$F"@.last() == 'F',
        "G"@.len() == 1, "G"@.last() == 'G', "$G"@.len() == 2, "$G"@.last() == 'G',
        "0"@.len() == 1, "0"@.last() == '0', "$0"@.len() == 2, "$0"@.last() == '0',
{ reveal_strlit("$S"); reveal_strlit("$$V"); reveal_strlit("$$$V"); reveal_strlit("$$Z"); reveal_strlit("$M"); reveal_strlit("$$Y"); reveal_strlit("$$B"); reveal_strlit("$$C"); reveal_strlit("$E?"); reveal_strlit("$E"); reveal_strlit("?"); reveal_strlit("1"); reveal_strlit("$1"); reveal_strlit("H"); reveal_strlit("$H"); reveal_strlit("I"); reveal_strlit("$I"); reveal_strlit("J"); reveal_strlit("$J"); reveal_strlit("F"); reveal_strlit("$F"); reveal_strlit("G"); reveal_strlit("$G"); reveal_strlit("0"); reveal_strlit("$0"); }
pub proof fn lemma_tp_codes(r: Seq<char>)
    ensures
        starts(r, "1"@) == value_code(r, true, '1'), starts(r, "$1"@) == value_code(r, false, '1'),
        starts(r, "H"@) == value_code(r, true, 'H'), starts(r, "$H"@) == value_code(r, false, 'H'),
        starts(r, "I"@) == value_code(r, true, 'I'), starts(r, "$I"@) == value_code(r, false, 'I'),
        starts(r, "J"@) == value_code(r, true, 'J'), starts(r, "$J"@) == value_code(r, false, 'J'),
        starts(r, "F"@) == value_code(r, true, 'F'), starts(r, "$F"@) == value_code(r, false, 'F'),
        starts(r, "G"@) == value_code(r, true, 'G'), starts(r, "$G"@) == value_code(r, false, 'G'),
        starts(r, "0"@) == value_code(r, true, '0'), starts(r, "$0"@) == value_code(r, false, '0'),
        starts(r, "$E?"@) ==> starts(r, "$E"@),
{
    reveal_strlit("$S"); reveal_strlit("$$V"); reveal_strlit("$$$V"); reveal_strlit("$$Z"); reveal_strlit("$M"); reveal_strlit("$$Y"); reveal_strlit("$$B"); reveal_strlit("$$C"); reveal_strlit("$E?"); reveal_strlit("$E"); reveal_strlit("?"); reveal_strlit("1"); reveal_strlit("$1"); reveal_strlit("H"); reveal_strlit("$H"); reveal_strlit("I"); reveal_strlit("$I"); reveal_strlit("J"); reveal_strlit("$J"); reveal_strlit("F"); reveal_strlit("$F"); reveal_strlit("G"); reveal_strlit("$G"); reveal_strlit("0"); reveal_strlit("$0");
    lemma_starts_short(r, "1"@); lemma_starts_short(r, "$1"@);
    lemma_starts_short(r, "H"@); lemma_starts_short(r, "$H"@);
    lemma_starts_short(r, "I"@); lemma_starts_short(r, "$I"@);
    lemma_starts_short(r, "J"@); lemma_starts_short(r, "$J"@);
    lemma_starts_short(r, "F"@); lemma_starts_short(r, "$F"@);
    lemma_starts_short(r, "G"@); lemma_starts_short(r, "$G"@);
    lemma_starts_short(r, "0"@); lemma_starts_short(r, "$0"@);
    if starts(r, "$E?"@) { lemma_starts_prefix(r, "$E?"@, "$E"@); }
}
// the end of a template parameter list
pub broadcast proof fn lemma_tparams_end(s: PS, d: int, acc: Seq<int>)
    ensures at(s.rest, '@') ==> #[trigger] p_tparams_from(s, d, acc) == Ok::<_, ErrK>((skip(s, 1), acc))
{ def_p_tparams_from(s, d, acc); }

pub broadcast proof fn lemma_hs_empty<T>(s: Seq<NodeHandle<T>>)
    ensures s.len() == 0 ==> #[trigger] hs(s) == Seq::<int>::empty()
{
    if s.len() == 0 { assert(hs(s) =~= Seq::<int>::empty()); }
}

pub broadcast proof fn lemma_hs_rev<T>(s: Seq<NodeHandle<T>>)
    ensures #[trigger] hs(rev(s)) == rev(hs(s))
{
    assert(hs(rev(s)) =~= rev(hs(s)));
}

pub broadcast proof fn lemma_hs_one<T>(s: Seq<NodeHandle<T>>)
    ensures s.len() == 1 ==> #[trigger] hs(s) == one(hi(s[0]))
{
    if s.len() == 1 { assert(hs(s) =~= one(hi(s[0]))); }
}
pub proof fn lemma_nulls_le(s: Seq<int>, n: int)
    requires 0 <= n <= s.len()
    ensures 0 <= nulls(s, n) <= n
    decreases n
{
    reveal_with_fuel(nulls, 2);
    if n > 0 { lemma_nulls_le(s, n - 1); }
}

pub open spec fn sq_bit(q: crate::nodes::enums::SingleQualifier) -> u8 {
    match q { crate::nodes::enums::SingleQualifier::Const => Q_CONST, crate::nodes::enums::SingleQualifier::Volatile => Q_VOLATILE, crate::nodes::enums::SingleQualifier::Restrict => Q_RESTRICT }
}
pub open spec fn out2<E, W: crate::io::Write + ?Sized>(r: core::result::Result<bool, E>, w: &W, x: core::result::Result<(Seq<char>, bool), ErrK>) -> bool {
    match r { Ok(b) => wok(w) && x == Ok::<_, ErrK>((wv(w), b)), Err(_) => x is Err }
}
pub open spec fn tps(cx: Cx, tp: Option<int>, ob: Seq<char>) -> OR {
    match tp {
        None => Ok(ob),
        Some(h) => match put(ob, "<"@) {
            Ok(ob) => match o_node(cx, cx.nodes[h], ob) { Ok(ob) => put(ob, ">"@), Err(e) => Err(e) },
            Err(e) => Err(e),
        }
    }
}
pub broadcast proof fn lemma_tps(cx: Cx, n: SNode, tp: Option<int>, ob: Seq<char>)
    ensures (tp matches Some(h) ==> desc(cx.nodes, n, h)) ==> #[trigger] o_tparams(cx, n, tp, ob) == tps(cx, tp, ob)
{ broadcast use def_o_tparams, def_o_child; }
pub proof fn lemma_wok_empty()
    ensures vstd::utf8::valid_utf8(Seq::<u8>::empty()), vstd::utf8::decode_utf8(Seq::<u8>::empty()) == Seq::<char>::empty()
{
    vstd::utf8::encode_utf8_valid_utf8(Seq::<char>::empty());
    vstd::utf8::encode_utf8_decode_utf8(Seq::<char>::empty());
    assert(vstd::utf8::encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
}
pub proof fn lemma_put_add(o: Seq<char>, a: Seq<char>, b: Seq<char>)
    ensures match put(o, a) { Ok(x) => put(x, b) == put(o, a.add(b)), Err(_) => put(o, a.add(b)) is Err }
{
    lemma_ulen_add(o, a); lemma_ulen_add(o + a, b); lemma_ulen_ge(b);
    assert(o + a + b =~= o + (a + b));
}
pub broadcast proof fn lemma_byi_push(s: Seq<u8>, x: u8)
    ensures #[trigger] byi(s.push(x)) == byi(s).push(x as int)
{
    assert(byi(s.push(x)) =~= byi(s).push(x as int));
}
pub broadcast proof fn lemma_text_len(b: Seq<u8>)
    requires vstd::utf8::valid_utf8(b)
    ensures ulen(#[trigger] vstd::utf8::decode_utf8(b)) == b.len()
{
    vstd::utf8::decode_utf8_encode_utf8(b);
}
