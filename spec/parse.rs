// What the parser makes of its input.

type PR<T> = Result<(PS, T), ErrK>;

// ---- the cursor

fn skip(s: PS, n: int) -> PS { PS { rest: s.rest.subrange(n, s.rest.len() as int), ..s } }

fn at(r: Seq<char>, c: char) -> bool { r.len() > 0 && r[0] == c }

fn starts(r: Seq<char>, p: Seq<char>) -> bool {
    r.len() >= p.len() && seq_eq(r.subrange(0, p.len() as int), p)
}

fn at_digit(r: Seq<char>) -> bool { r.len() > 0 && is_digit(r[0]) }

// index of the first `c` at or after `i`
#[dec(r.len() - i)]
fn find_from(r: Seq<char>, c: char, i: int) -> Option<int> {
    if i < 0 || i >= r.len() as int { None }
    else if r[i] == c { Some(i) }
    else { find_from(r, c, i + 1) }
}

fn find(r: Seq<char>, c: char) -> Option<int> { find_from(r, c, 0) }

fn expect_char(s: PS, c: char, e: ErrK) -> Result<PS, ErrK> {
    if at(s.rest, c) { Ok(skip(s, 1)) } else { Err(e) }
}

fn expect_str(s: PS, p: Seq<char>, e: ErrK) -> Result<PS, ErrK> {
    if starts(s.rest, p) { Ok(skip(s, p.len() as int)) } else { Err(e) }
}

fn any(s: PS, e: ErrK) -> PR<char> {
    if s.rest.len() == 0 { Err(e) } else { Ok((skip(s, 1), s.rest[0])) }
}

#[dec(r.len() - i)]
fn all_rhex(r: Seq<char>, i: int) -> bool {
    if i < 0 || i >= r.len() as int { true } else { is_rhex(r[i]) && all_rhex(r, i + 1) }
}

// \?[0-9@]\?  or  \?[B-P][A-P]*@\?
fn local_scope_pattern(r: Seq<char>) -> bool {
    if !at(r, '?') {
        false
    } else {
        match find_from(r, '?', 1) {
            None => false,
            Some(e) => {
                let cand = r.subrange(1, e);
                if cand.len() == 0 { false }
                else if cand.len() == 1 { cand[0] == '@' || is_digit(cand[0]) }
                else {
                    cand[cand.len() as int - 1] == '@' && is_rhex(cand[0]) && cand[0] != 'A'
                        && all_rhex(cand.subrange(1, cand.len() as int - 1), 0)
                }
            }
        }
    }
}

fn is_tag_type(r: Seq<char>) -> bool { at(r, 'T') || at(r, 'U') || at(r, 'V') || at(r, 'W') }

fn is_pointer_type(r: Seq<char>) -> bool {
    starts(r, lit("$$Q")) || at(r, 'A') || at(r, 'P') || at(r, 'Q') || at(r, 'R') || at(r, 'S')
}

fn is_function_type(r: Seq<char>) -> bool { starts(r, lit("$$A8@@")) || starts(r, lit("$$A6")) }

fn drop_if(r: Seq<char>, c: char) -> Seq<char> {
    if at(r, c) { r.subrange(1, r.len() as int) } else { r }
}

// Some(true): pointer to member, Some(false): other pointer or reference
fn member_pointer(r: Seq<char>) -> Option<bool> {
    if r.len() == 0 { None }
    else if r[0] == '$' || r[0] == 'A' { Some(false) }
    else if !(r[0] == 'P' || r[0] == 'Q' || r[0] == 'R' || r[0] == 'S') { None }
    else {
        let t = r.subrange(1, r.len() as int);
        if at_digit(t) {
            if t[0] == '6' { Some(false) } else if t[0] == '8' { Some(true) } else { None }
        } else {
            let u = drop_if(drop_if(drop_if(t, 'E'), 'I'), 'F');
            if at(u, 'A') || at(u, 'B') || at(u, 'C') || at(u, 'D') { Some(false) }
            else if at(u, 'Q') || at(u, 'R') || at(u, 'S') || at(u, 'T') { Some(true) }
            else { None }
        }
    }
}

// ---- the node table

fn intern(s: PS, n: SNode) -> PR<int> {
    if s.nodes.len() as int + 1 > MAX_NODES {
        Err(ErrK::MaliciousInput)
    } else {
        Ok((PS { nodes: s.nodes.push(n), ..s }, s.nodes.len() as int))
    }
}

fn upd(s: PS, h: int, n: SNode) -> PS { PS { nodes: s.nodes.update(h, n), ..s } }

fn set_quals_of(n: SNode, q: u8) -> SNode {
    match n {
        SNode::Prim { quals, kind } => SNode::Prim { quals: q, kind: kind },
        SNode::Sig { f } => SNode::Sig { f: SFunc { quals: q, ..f } },
        SNode::Thunk { f, so, vbp, vbo, vtd } => SNode::Thunk { f: SFunc { quals: q, ..f }, so: so, vbp: vbp, vbo: vbo, vtd: vtd },
        SNode::Ptr { quals, aff, parent, pointee } => SNode::Ptr { quals: q, aff: aff, parent: parent, pointee: pointee },
        SNode::Tag { quals, name, tag } => SNode::Tag { quals: q, name: name, tag: tag },
        SNode::Arr { quals, dims, elem } => SNode::Arr { quals: q, dims: dims, elem: elem },
        SNode::Custom { quals, ident } => SNode::Custom { quals: q, ident: ident },
        _ => n,
    }
}

fn quals_of(n: SNode) -> u8 {
    match n {
        SNode::Prim { quals, kind } => quals,
        SNode::Sig { f } => f.quals,
        SNode::Thunk { f, so, vbp, vbo, vtd } => f.quals,
        SNode::Ptr { quals, aff, parent, pointee } => quals,
        SNode::Tag { quals, name, tag } => quals,
        SNode::Arr { quals, dims, elem } => quals,
        SNode::Custom { quals, ident } => quals,
        _ => 0,
    }
}

fn add_quals_of(n: SNode, q: u8) -> SNode { set_quals_of(n, quals_of(n) | q) }

fn set_class_of(n: SNode, c: u16) -> SNode {
    match n {
        SNode::Sig { f } => SNode::Sig { f: SFunc { class: c, ..f } },
        SNode::Thunk { f, so, vbp, vbo, vtd } => SNode::Thunk { f: SFunc { class: c, ..f }, so: so, vbp: vbp, vbo: vbo, vtd: vtd },
        _ => n,
    }
}

fn set_tparams_of(n: SNode, t: int) -> SNode {
    match n {
        SNode::Vcall { tp, off } => SNode::Vcall { tp: Some(t), off: off },
        SNode::DynStruct { tp, is_var, target, dtor } => SNode::DynStruct { tp: Some(t), is_var: is_var, target: target, dtor: dtor },
        SNode::Named { tp, name, styled } => SNode::Named { tp: Some(t), name: name, styled: styled },
        SNode::Intrinsic { tp, op } => SNode::Intrinsic { tp: Some(t), op: op },
        SNode::LitOp { tp, name } => SNode::LitOp { tp: Some(t), name: name },
        SNode::Guard { tp, thread, scope } => SNode::Guard { tp: Some(t), thread: thread, scope: scope },
        SNode::Conv { tp, target } => SNode::Conv { tp: Some(t), target: target },
        SNode::Structor { tp, class, dtor } => SNode::Structor { tp: Some(t), class: class, dtor: dtor },
        SNode::Rtti { tp, nv, vbp, vbt, fl } => SNode::Rtti { tp: Some(t), nv: nv, vbp: vbp, vbt: vbt, fl: fl },
        _ => n,
    }
}

fn set_name_of(n: SNode, q: int) -> SNode {
    match n {
        SNode::Md5 { name } => SNode::Md5 { name: q },
        SNode::Table { name, target, quals } => SNode::Table { name: q, target: target, quals: quals },
        SNode::GuardVar { name } => SNode::GuardVar { name: q },
        SNode::Str { name, text, trunc, ch } => SNode::Str { name: Some(q), text: text, trunc: trunc, ch: ch },
        SNode::Var { name, sc, ty } => SNode::Var { name: Some(SVarName::Q(q)), sc: sc, ty: ty },
        SNode::Func { name, sig } => SNode::Func { name: Some(q), sig: sig },
        _ => n,
    }
}

fn name_of(n: SNode) -> Option<int> {
    match n {
        SNode::Md5 { name } => Some(name),
        SNode::Table { name, target, quals } => Some(name),
        SNode::GuardVar { name } => Some(name),
        SNode::Str { name, text, trunc, ch } => name,
        SNode::Var { name, sc, ty } => match name { Some(SVarName::Q(q)) => Some(q), _ => None },
        SNode::Func { name, sig } => name,
        _ => None,
    }
}

fn text_of(n: SNode) -> Seq<char> {
    match n {
        SNode::Named { tp, name, styled } => name,
        _ => Seq::empty(),
    }
}

fn comps_of(nodes: Seq<SNode>, q: int) -> Seq<int> {
    match nodes[q] {
        SNode::QName { comps } => arr_of(nodes[comps]),
        _ => Seq::empty(),
    }
}

// the last component of a qualified name, if it is an identifier
fn last_ident(nodes: Seq<SNode>, cs: Seq<int>) -> Option<int> {
    if cs.len() == 0 { None }
    else if is_ident(nodes[cs[cs.len() as int - 1]]) { Some(cs[cs.len() as int - 1]) }
    else { None }
}

fn unqualified(nodes: Seq<SNode>, q: int) -> Option<int> { last_ident(nodes, comps_of(nodes, q)) }

fn default_sig() -> SFunc {
    SFunc { quals: 0, cc: None, class: FC_GLOBAL, refq: None, ret: None, variadic: false, params: None, noexc: false }
}

fn named(t: Seq<char>) -> SNode { SNode::Named { tp: None, name: t, styled: None } }

// ---- numbers

// <number> ::= [?] ( [0-9] | [A-P]* @ )
#[dec(s.rest.len())]
fn p_hex(s: PS, n: int) -> PR<int> {
    if s.rest.len() == 0 { Err(ErrK::InvalidNumber) }
    else if s.rest[0] == '@' { Ok((skip(s, 1), n)) }
    else if is_rhex(s.rest[0]) { p_hex(skip(s, 1), (n * 16) % 18446744073709551616 + rhex(s.rest[0])) }
    else { Err(ErrK::InvalidNumber) }
}

fn p_number(s: PS) -> PR<(int, bool)> {
    let neg = at(s.rest, '?');
    let s = if neg { skip(s, 1) } else { s };
    if at_digit(s.rest) {
        Ok((skip(s, 1), (ci(s.rest[0]) - 48 + 1, neg)))
    } else {
        let r = p_hex(s, 0)?;
        Ok((r.0, (r.1, neg)))
    }
}

fn p_unsigned(s: PS) -> PR<int> {
    let r = p_number(s)?;
    if r.1.1 { Err(ErrK::InvalidUnsigned) } else { Ok((r.0, r.1.0)) }
}

fn p_signed(s: PS) -> PR<int> {
    let r = p_number(s)?;
    if r.1.0 > 9223372036854775807 { Err(ErrK::InvalidSigned) }
    else { Ok((r.0, if r.1.1 { -r.1.0 } else { r.1.0 })) }
}

// two's complement truncation
fn tr_u32(x: int) -> int { emod(x, 4294967296) }
fn tr_i32(x: int) -> int { if emod(x, 4294967296) >= 2147483648 { emod(x, 4294967296) - 4294967296 } else { emod(x, 4294967296) } }

fn to_u32(r: (PS, int), e: ErrK) -> PR<int> { if r.1 >= 4294967296 { Err(e) } else { Ok(r) } }
fn to_i32(r: (PS, int), e: ErrK) -> PR<int> { if r.1 >= 2147483648 || r.1 < -2147483648 { Err(e) } else { Ok(r) } }

// ---- memorized names

#[dec(nm.len() - i)]
fn name_known(nodes: Seq<SNode>, nm: Seq<int>, t: Seq<char>, i: int) -> bool {
    if i < 0 || i >= nm.len() as int { false }
    else { seq_eq(text_of(nodes[nm[i]]), t) || name_known(nodes, nm, t, i + 1) }
}

fn p_memorize(s: PS, t: Seq<char>, styled: Option<Seq<char>>) -> Result<PS, ErrK> {
    if s.nm.len() < 10 && !name_known(s.nodes, s.nm, t, 0) {
        let r = intern(s, SNode::Named { tp: None, name: t, styled: styled })?;
        Ok(PS { nm: s.nm.push(r.1), ..r.0 })
    } else {
        Ok(s)
    }
}

fn erased(nodes: Seq<SNode>) -> Seq<SNode> { seq_map(nodes, |n: SNode| erase(n)) }

fn mkcx(nodes: Seq<SNode>, flags: u16) -> Cx {
    if flags == 0 { Cx { nodes: erased(nodes), flags: flags } } else { Cx { nodes: nodes, flags: flags } }
}

fn render(nodes: Seq<SNode>, flags: u16, h: int, ob: Seq<char>) -> OR {
    o_node(mkcx(nodes, flags), norm(flags, nodes[h]), ob)
}

fn p_memorize_ident(s: PS, h: int) -> Result<PS, ErrK> {
    let t = render(s.nodes, 0, h, Seq::empty())?;
    let st = (if s.fl == 0 { Ok(None) } else {
        let t2 = render(s.nodes, s.fl, h, Seq::empty())?;
        Ok(Some(t2))
    })?;
    p_memorize(s, t, st)
}

// ---- leaves of the grammar

fn p_simple_string(s: PS, memorize: bool) -> PR<Seq<char>> {
    match find(s.rest, '@') {
        None => Err(ErrK::InvalidSimpleString),
        Some(i) => {
            if i == 0 {
                Err(ErrK::InvalidSimpleString)
            } else {
                let t = s.rest.subrange(0, i);
                let s2 = skip(s, i + 1);
                let s3 = (if memorize { p_memorize(s2, t, None) } else { Ok(s2) })?;
                Ok((s3, t))
            }
        }
    }
}

fn p_simple_name(s: PS, memorize: bool) -> PR<int> {
    let r = p_simple_string(s, memorize)?;
    intern(r.0, named(r.1))
}

fn p_anon_namespace(s: PS) -> PR<int> {
    let s = expect_str(s, lit("?A"), ErrK::InvalidAnonymousNamespaceName)?;
    match find(s.rest, '@') {
        None => Err(ErrK::InvalidAnonymousNamespaceName),
        Some(i) => {
            let s2 = p_memorize(skip(s, i), s.rest.subrange(0, i), None)?;
            let s3 = expect_char(s2, '@', ErrK::InvalidAnonymousNamespaceName)?;
            intern(s3, named(lit("`anonymous namespace'")))
        }
    }
}

fn p_back_ref(s: PS) -> PR<int> {
    if !at_digit(s.rest) { Err(ErrK::InvalidBackRef) }
    else if ci(s.rest[0]) - 48 >= s.nm.len() as int { Err(ErrK::InvalidBackRef) }
    else { Ok((skip(s, 1), s.nm[ci(s.rest[0]) - 48])) }
}

fn p_ext_quals(s: PS) -> (PS, u8) {
    let e = at(s.rest, 'E');
    let s1 = if e { skip(s, 1) } else { s };
    let i = at(s1.rest, 'I');
    let s2 = if i { skip(s1, 1) } else { s1 };
    let f = at(s2.rest, 'F');
    let s3 = if f { skip(s2, 1) } else { s2 };
    (s3, (if e { Q_PTR64 } else { 0 }) | (if i { Q_RESTRICT } else { 0 }) | (if f { Q_UNALIGNED } else { 0 }))
}

fn quals_code(c: char) -> Option<(u8, bool)> {
    if c == 'Q' { Some((0, true)) }
    else if c == 'R' { Some((Q_CONST, true)) }
    else if c == 'S' { Some((Q_VOLATILE, true)) }
    else if c == 'T' { Some((Q_CONST | Q_VOLATILE, true)) }
    else if c == 'A' { Some((0, false)) }
    else if c == 'B' { Some((Q_CONST, false)) }
    else if c == 'C' { Some((Q_VOLATILE, false)) }
    else if c == 'D' { Some((Q_CONST | Q_VOLATILE, false)) }
    else { None }
}

fn p_quals(s: PS) -> PR<(u8, bool)> {
    let r = any(s, ErrK::InvalidQualifiers)?;
    match quals_code(r.1) {
        Some(q) => Ok((r.0, q)),
        None => Err(ErrK::InvalidQualifiers),
    }
}

fn ptr_code(c: char) -> Option<(u8, PointerAffinity)> {
    if c == 'A' { Some((0, PointerAffinity::Reference)) }
    else if c == 'P' { Some((0, PointerAffinity::Pointer)) }
    else if c == 'Q' { Some((Q_CONST, PointerAffinity::Pointer)) }
    else if c == 'R' { Some((Q_VOLATILE, PointerAffinity::Pointer)) }
    else if c == 'S' { Some((Q_CONST | Q_VOLATILE, PointerAffinity::Pointer)) }
    else { None }
}

fn p_ptr_cv(s: PS) -> PR<(u8, PointerAffinity)> {
    if starts(s.rest, lit("$$Q")) {
        Ok((skip(s, lit("$$Q").len() as int), (0, PointerAffinity::RValueReference)))
    } else {
        let r = any(s, ErrK::InvalidPointerCVQualifiers)?;
        match ptr_code(r.1) {
            Some(q) => Ok((r.0, q)),
            None => Err(ErrK::InvalidPointerCVQualifiers),
        }
    }
}

fn p_refq(s: PS) -> (PS, Option<FunctionRefQualifier>) {
    if at(s.rest, 'G') { (skip(s, 1), Some(FunctionRefQualifier::Reference)) }
    else if at(s.rest, 'H') { (skip(s, 1), Some(FunctionRefQualifier::RValueReference)) }
    else { (s, None) }
}

fn prim_code(c: char) -> Option<PrimitiveKind> {
    if c == 'X' { Some(PrimitiveKind::Void) }
    else if c == 'D' { Some(PrimitiveKind::Char) }
    else if c == 'C' { Some(PrimitiveKind::Schar) }
    else if c == 'E' { Some(PrimitiveKind::Uchar) }
    else if c == 'F' { Some(PrimitiveKind::Short) }
    else if c == 'G' { Some(PrimitiveKind::Ushort) }
    else if c == 'H' { Some(PrimitiveKind::Int) }
    else if c == 'I' { Some(PrimitiveKind::Uint) }
    else if c == 'J' { Some(PrimitiveKind::Long) }
    else if c == 'K' { Some(PrimitiveKind::Ulong) }
    else if c == 'M' { Some(PrimitiveKind::Float) }
    else if c == 'N' { Some(PrimitiveKind::Double) }
    else if c == 'O' { Some(PrimitiveKind::Ldouble) }
    else { None }
}

fn prim_code2(c: char) -> Option<PrimitiveKind> {
    if c == 'N' { Some(PrimitiveKind::Bool) }
    else if c == 'J' { Some(PrimitiveKind::Int64) }
    else if c == 'K' { Some(PrimitiveKind::Uint64) }
    else if c == 'W' { Some(PrimitiveKind::Wchar) }
    else if c == 'Q' { Some(PrimitiveKind::Char8) }
    else if c == 'S' { Some(PrimitiveKind::Char16) }
    else if c == 'U' { Some(PrimitiveKind::Char32) }
    else if c == 'P' { Some(PrimitiveKind::Auto) }
    else if c == 'T' { Some(PrimitiveKind::DecltypeAuto) }
    else { None }
}

fn p_prim(s: PS) -> PR<int> {
    let r = (if starts(s.rest, lit("$$T")) {
        Ok((skip(s, lit("$$T").len() as int), Some(PrimitiveKind::Nullptr)))
    } else {
        let r = any(s, ErrK::InvalidPrimitiveType)?;
        if r.1 == '_' {
            let r2 = any(r.0, ErrK::InvalidPrimitiveType)?;
            Ok((r2.0, prim_code2(r2.1)))
        } else {
            Ok((r.0, prim_code(r.1)))
        }
    })?;
    match r.1 {
        Some(k) => intern(r.0, SNode::Prim { quals: 0, kind: k }),
        None => Err(ErrK::InvalidPrimitiveType),
    }
}

// function classes: letters run private, protected, public in groups of eight, and
// each group runs plain, static, virtual, this-adjusting, each followed by its far twin
fn class_access(i: int) -> u16 { if i < 8 { FC_PRIVATE } else if i < 16 { FC_PROTECTED } else { FC_PUBLIC } }

fn class_code(c: char) -> Option<u16> {
    let i = ci(c) - 65;
    if c == '9' { Some(FC_EXTERNC | FC_NOPARAMS) }
    else if c == 'Y' { Some(FC_GLOBAL) }
    else if c == 'Z' { Some(FC_GLOBAL | FC_FAR) }
    else if i < 0 || i > 23 { None }
    else if i % 8 == 0 { Some(class_access(i)) }
    else if i % 8 == 1 { Some(class_access(i) | FC_FAR) }
    else if i % 8 == 2 { Some(class_access(i) | FC_STATIC) }
    else if i % 8 == 3 { Some(class_access(i) | FC_STATIC | FC_FAR) }
    else if i % 8 == 4 { Some(class_access(i) | FC_VIRTUAL) }
    else if i % 8 == 5 { Some(class_access(i) | FC_VIRTUAL | FC_FAR) }
    // private this-adjusting thunks don't count as virtual
    else if i == 6 { Some(FC_PRIVATE | FC_STA) }
    else if i == 7 { Some(FC_PRIVATE | FC_STA | FC_FAR) }
    else if i % 8 == 6 { Some(class_access(i) | FC_VIRTUAL | FC_STA) }
    else { Some(class_access(i) | FC_VIRTUAL | FC_STA | FC_FAR) }
}

fn class_code2(c: char, v: u16) -> Option<u16> {
    if c == '0' { Some(FC_PRIVATE | FC_VIRTUAL | v) }
    else if c == '1' { Some(FC_PRIVATE | FC_VIRTUAL | v | FC_FAR) }
    else if c == '2' { Some(FC_PROTECTED | FC_VIRTUAL | v) }
    else if c == '3' { Some(FC_PROTECTED | FC_VIRTUAL | v | FC_FAR) }
    else if c == '4' { Some(FC_PUBLIC | FC_VIRTUAL | v) }
    else if c == '5' { Some(FC_PUBLIC | FC_VIRTUAL | v | FC_FAR) }
    else { None }
}

fn p_func_class(s: PS) -> PR<u16> {
    let r = any(s, ErrK::InvalidFunctionClass)?;
    if r.1 == '$' {
        let ex = at(r.0.rest, 'R');
        let r2 = any(if ex { skip(r.0, 1) } else { r.0 }, ErrK::InvalidFunctionClass)?;
        match class_code2(r2.1, if ex { FC_VTA | FC_VTAEX } else { FC_VTA }) {
            Some(c) => Ok((r2.0, c)),
            None => Err(ErrK::InvalidFunctionClass),
        }
    } else {
        match class_code(r.1) {
            Some(c) => Ok((r.0, c)),
            None => Err(ErrK::InvalidFunctionClass),
        }
    }
}

fn cc_code(c: char) -> Option<CallingConv> {
    if c == 'A' || c == 'B' { Some(CallingConv::Cdecl) }
    else if c == 'C' || c == 'D' { Some(CallingConv::Pascal) }
    else if c == 'E' || c == 'F' { Some(CallingConv::Thiscall) }
    else if c == 'G' || c == 'H' { Some(CallingConv::Stdcall) }
    else if c == 'I' || c == 'J' { Some(CallingConv::Fastcall) }
    else if c == 'M' || c == 'N' { Some(CallingConv::Clrcall) }
    else if c == 'O' || c == 'P' { Some(CallingConv::Eabi) }
    else if c == 'Q' { Some(CallingConv::Vectorcall) }
    else if c == 'S' { Some(CallingConv::Swift) }
    else if c == 'W' { Some(CallingConv::SwiftAsync) }
    else { None }
}

fn p_cc(s: PS) -> PR<Option<CallingConv>> {
    let r = any(s, ErrK::InvalidCallingConvention)?;
    Ok((r.0, cc_code(r.1)))
}

fn sc_code(c: char) -> Option<StorageClass> {
    if c == '0' { Some(StorageClass::PrivateStatic) }
    else if c == '1' { Some(StorageClass::ProtectedStatic) }
    else if c == '2' { Some(StorageClass::PublicStatic) }
    else if c == '3' { Some(StorageClass::Global) }
    else if c == '4' { Some(StorageClass::FunctionLocalStatic) }
    else { None }
}

fn p_sc(s: PS) -> PR<StorageClass> {
    let r = any(s, ErrK::InvalidVariableStorageClass)?;
    match sc_code(r.1) {
        Some(c) => Ok((r.0, c)),
        None => Err(ErrK::InvalidVariableStorageClass),
    }
}

fn p_throw(s: PS) -> PR<bool> {
    if starts(s.rest, lit("_E")) { Ok((skip(s, lit("_E").len() as int), true)) }
    else if at(s.rest, 'Z') { Ok((skip(s, 1), false)) }
    else { Err(ErrK::InvalidThrowSpecification) }
}

// ---- operator names

fn op_basic(c: char) -> Option<IntrinsicFunctionKind> {
    if c == '2' { Some(IntrinsicFunctionKind::New) }
    else if c == '3' { Some(IntrinsicFunctionKind::Delete) }
    else if c == '4' { Some(IntrinsicFunctionKind::Assign) }
    else if c == '5' { Some(IntrinsicFunctionKind::RightShift) }
    else if c == '6' { Some(IntrinsicFunctionKind::LeftShift) }
    else if c == '7' { Some(IntrinsicFunctionKind::LogicalNot) }
    else if c == '8' { Some(IntrinsicFunctionKind::Equals) }
    else if c == '9' { Some(IntrinsicFunctionKind::NotEquals) }
    else if c == 'A' { Some(IntrinsicFunctionKind::ArraySubscript) }
    else if c == 'C' { Some(IntrinsicFunctionKind::Pointer) }
    else if c == 'D' { Some(IntrinsicFunctionKind::Dereference) }
    else if c == 'E' { Some(IntrinsicFunctionKind::Increment) }
    else if c == 'F' { Some(IntrinsicFunctionKind::Decrement) }
    else if c == 'G' { Some(IntrinsicFunctionKind::Minus) }
    else if c == 'H' { Some(IntrinsicFunctionKind::Plus) }
    else if c == 'I' { Some(IntrinsicFunctionKind::BitwiseAnd) }
    else if c == 'J' { Some(IntrinsicFunctionKind::MemberPointer) }
    else if c == 'K' { Some(IntrinsicFunctionKind::Divide) }
    else if c == 'L' { Some(IntrinsicFunctionKind::Modulus) }
    else if c == 'M' { Some(IntrinsicFunctionKind::LessThan) }
    else if c == 'N' { Some(IntrinsicFunctionKind::LessThanEqual) }
    else if c == 'O' { Some(IntrinsicFunctionKind::GreaterThan) }
    else if c == 'P' { Some(IntrinsicFunctionKind::GreaterThanEqual) }
    else if c == 'Q' { Some(IntrinsicFunctionKind::Comma) }
    else if c == 'R' { Some(IntrinsicFunctionKind::Parens) }
    else if c == 'S' { Some(IntrinsicFunctionKind::BitwiseNot) }
    else if c == 'T' { Some(IntrinsicFunctionKind::BitwiseXor) }
    else if c == 'U' { Some(IntrinsicFunctionKind::BitwiseOr) }
    else if c == 'V' { Some(IntrinsicFunctionKind::LogicalAnd) }
    else if c == 'W' { Some(IntrinsicFunctionKind::LogicalOr) }
    else if c == 'X' { Some(IntrinsicFunctionKind::TimesEqual) }
    else if c == 'Y' { Some(IntrinsicFunctionKind::PlusEqual) }
    else if c == 'Z' { Some(IntrinsicFunctionKind::MinusEqual) }
    else { None }
}

fn op_under(c: char) -> Option<IntrinsicFunctionKind> {
    if c == '0' { Some(IntrinsicFunctionKind::DivEqual) }
    else if c == '1' { Some(IntrinsicFunctionKind::ModEqual) }
    else if c == '2' { Some(IntrinsicFunctionKind::RshEqual) }
    else if c == '3' { Some(IntrinsicFunctionKind::LshEqual) }
    else if c == '4' { Some(IntrinsicFunctionKind::BitwiseAndEqual) }
    else if c == '5' { Some(IntrinsicFunctionKind::BitwiseOrEqual) }
    else if c == '6' { Some(IntrinsicFunctionKind::BitwiseXorEqual) }
    else if c == 'D' { Some(IntrinsicFunctionKind::VbaseDtor) }
    else if c == 'E' { Some(IntrinsicFunctionKind::VecDelDtor) }
    else if c == 'F' { Some(IntrinsicFunctionKind::DefaultCtorClosure) }
    else if c == 'G' { Some(IntrinsicFunctionKind::ScalarDelDtor) }
    else if c == 'H' { Some(IntrinsicFunctionKind::VecCtorIter) }
    else if c == 'I' { Some(IntrinsicFunctionKind::VecDtorIter) }
    else if c == 'J' { Some(IntrinsicFunctionKind::VecVbaseCtorIter) }
    else if c == 'K' { Some(IntrinsicFunctionKind::VdispMap) }
    else if c == 'L' { Some(IntrinsicFunctionKind::EHVecCtorIter) }
    else if c == 'M' { Some(IntrinsicFunctionKind::EHVecDtorIter) }
    else if c == 'N' { Some(IntrinsicFunctionKind::EHVecVbaseCtorIter) }
    else if c == 'O' { Some(IntrinsicFunctionKind::CopyCtorClosure) }
    else if c == 'T' { Some(IntrinsicFunctionKind::LocalVftableCtorClosure) }
    else if c == 'U' { Some(IntrinsicFunctionKind::ArrayNew) }
    else if c == 'V' { Some(IntrinsicFunctionKind::ArrayDelete) }
    else { None }
}

fn op_dunder(c: char) -> Option<IntrinsicFunctionKind> {
    if c == 'A' { Some(IntrinsicFunctionKind::ManVectorCtorIter) }
    else if c == 'B' { Some(IntrinsicFunctionKind::ManVectorDtorIter) }
    else if c == 'C' { Some(IntrinsicFunctionKind::EHVectorCopyCtorIter) }
    else if c == 'D' { Some(IntrinsicFunctionKind::EHVectorVbaseCopyCtorIter) }
    else if c == 'G' { Some(IntrinsicFunctionKind::VectorCopyCtorIter) }
    else if c == 'H' { Some(IntrinsicFunctionKind::VectorVbaseCopyCtorIter) }
    else if c == 'I' { Some(IntrinsicFunctionKind::ManVectorVbaseCopyCtorIter) }
    else if c == 'L' { Some(IntrinsicFunctionKind::CoAwait) }
    else if c == 'M' { Some(IntrinsicFunctionKind::Spaceship) }
    else { None }
}

// group 0: ?x, group 1: ?_x, group 2: ?__x
fn op_code(c: char, group: int) -> Option<IntrinsicFunctionKind> {
    if group == 0 { op_basic(c) } else if group == 1 { op_under(c) } else { op_dunder(c) }
}

fn p_op(c: char, group: int) -> Result<Option<IntrinsicFunctionKind>, ErrK> {
    if is_digit(c) || is_upper(c) { Ok(op_code(c, group)) } else { Err(ErrK::InvalidIntrinsicFunctionCode) }
}

fn p_ident_code_group(s: PS, group: int) -> PR<int> {
    let r = any(s, ErrK::InvalidFunctionIdentifierCode)?;
    if group == 0 && (r.1 == '0' || r.1 == '1') {
        intern(r.0, SNode::Structor { tp: None, class: None, dtor: r.1 == '1' })
    } else if group == 0 && r.1 == 'B' {
        intern(r.0, SNode::Conv { tp: None, target: None })
    } else if group == 2 && r.1 == 'K' {
        let n = p_simple_string(r.0, false)?;
        intern(n.0, SNode::LitOp { tp: None, name: n.1 })
    } else {
        let op = p_op(r.1, group)?;
        intern(r.0, SNode::Intrinsic { tp: None, op: op })
    }
}

fn p_ident_code(s: PS) -> PR<int> {
    let s = expect_char(s, '?', ErrK::InvalidFunctionIdentifierCode)?;
    if starts(s.rest, lit("__")) { p_ident_code_group(skip(s, lit("__").len() as int), 2) }
    else if at(s.rest, '_') { p_ident_code_group(skip(s, 1), 1) }
    else { p_ident_code_group(s, 0) }
}

fn sik_of(r: Seq<char>) -> Option<SpecialIntrinsicKind> {
    if starts(r, lit("?_7")) { Some(SpecialIntrinsicKind::Vftable) }
    else if starts(r, lit("?_8")) { Some(SpecialIntrinsicKind::Vbtable) }
    else if starts(r, lit("?_9")) { Some(SpecialIntrinsicKind::VcallThunk) }
    else if starts(r, lit("?_A")) { Some(SpecialIntrinsicKind::Typeof) }
    else if starts(r, lit("?_B")) { Some(SpecialIntrinsicKind::LocalStaticGuard) }
    else if starts(r, lit("?_C")) { Some(SpecialIntrinsicKind::StringLiteralSymbol) }
    else if starts(r, lit("?_P")) { Some(SpecialIntrinsicKind::UdtReturning) }
    else if starts(r, lit("?_R0")) { Some(SpecialIntrinsicKind::RttiTypeDescriptor) }
    else if starts(r, lit("?_R1")) { Some(SpecialIntrinsicKind::RttiBaseClassDescriptor) }
    else if starts(r, lit("?_R2")) { Some(SpecialIntrinsicKind::RttiBaseClassArray) }
    else if starts(r, lit("?_R3")) { Some(SpecialIntrinsicKind::RttiClassHierarchyDescriptor) }
    else if starts(r, lit("?_R4")) { Some(SpecialIntrinsicKind::RttiCompleteObjLocator) }
    else if starts(r, lit("?_S")) { Some(SpecialIntrinsicKind::LocalVftable) }
    else if starts(r, lit("?__E")) { Some(SpecialIntrinsicKind::DynamicInitializer) }
    else if starts(r, lit("?__F")) { Some(SpecialIntrinsicKind::DynamicAtexitDestructor) }
    else if starts(r, lit("?__J")) { Some(SpecialIntrinsicKind::LocalStaticThreadGuard) }
    else { None }
}

fn sik_len(k: SpecialIntrinsicKind) -> int {
    match k {
        SpecialIntrinsicKind::RttiTypeDescriptor => lit("?_R0").len() as int,
        SpecialIntrinsicKind::RttiBaseClassDescriptor => lit("?_R1").len() as int,
        SpecialIntrinsicKind::RttiBaseClassArray => lit("?_R2").len() as int,
        SpecialIntrinsicKind::RttiClassHierarchyDescriptor => lit("?_R3").len() as int,
        SpecialIntrinsicKind::RttiCompleteObjLocator => lit("?_R4").len() as int,
        SpecialIntrinsicKind::DynamicInitializer => lit("?__E").len() as int,
        SpecialIntrinsicKind::DynamicAtexitDestructor => lit("?__F").len() as int,
        SpecialIntrinsicKind::LocalStaticThreadGuard => lit("?__J").len() as int,
        SpecialIntrinsicKind::Vftable => lit("?_7").len() as int,
        SpecialIntrinsicKind::Vbtable => lit("?_8").len() as int,
        SpecialIntrinsicKind::VcallThunk => lit("?_9").len() as int,
        SpecialIntrinsicKind::Typeof => lit("?_A").len() as int,
        SpecialIntrinsicKind::LocalStaticGuard => lit("?_B").len() as int,
        SpecialIntrinsicKind::StringLiteralSymbol => lit("?_C").len() as int,
        SpecialIntrinsicKind::UdtReturning => lit("?_P").len() as int,
        SpecialIntrinsicKind::LocalVftable => lit("?_S").len() as int,
    }
}

// ---- string literals

fn p_char_lit(s: PS) -> PR<int> {
    let r = any(s, ErrK::InvalidCharLiteral)?;
    if r.1 != '?' {
        if ci(r.1) < 256 { Ok((r.0, ci(r.1))) } else { Err(ErrK::InvalidCharLiteral) }
    } else {
        let r2 = any(r.0, ErrK::InvalidCharLiteral)?;
        let c = r2.1;
        if c == '$' {
            let t = r2.0.rest;
            if t.len() < 2 { Err(ErrK::InvalidCharLiteral) }
            else if is_rhex(t[0]) && is_rhex(t[1]) { Ok((skip(r2.0, 2), rhex(t[0]) * 16 + rhex(t[1]))) }
            else { Err(ErrK::InvalidCharLiteral) }
        } else if is_digit(c) {
            Ok((r2.0, ci(lit(",/\\:. \n\t'-")[ci(c) - 48])))
        } else if is_lower(c) {
            Ok((r2.0, 225 + (ci(c) - 97)))
        } else if is_upper(c) {
            Ok((r2.0, 193 + (ci(c) - 65)))
        } else {
            Err(ErrK::InvalidCharLiteral)
        }
    }
}

fn p_wchar_lit(s: PS) -> PR<int> {
    let r1 = p_char_lit(s)?;
    let r2 = p_char_lit(r1.0)?;
    Ok((r2.0, r1.1 * 256 + r2.1))
}

fn esc(c: int) -> Seq<char> {
    if c == 0 { lit("\\0") }
    else if c == 39 { lit("\\'") }
    else if c == 34 { lit("\\\"") }
    else if c == 92 { lit("\\\\") }
    else if c == 7 { lit("\\a") }
    else if c == 8 { lit("\\b") }
    else if c == 12 { lit("\\f") }
    else if c == 10 { lit("\\n") }
    else if c == 13 { lit("\\r") }
    else if c == 9 { lit("\\t") }
    else if c == 11 { lit("\\v") }
    else if c >= 32 && c <= 126 { one(chr(c)) }
    else { lit("\\x").add(hex2(c)) }
}

fn o_esc(ob: Seq<char>, c: int) -> OR { put(ob, esc(c)) }

#[dec(s.rest.len())]
fn p_wide(s: PS, len: int, trunc: bool, ob: Seq<char>) -> PR<Seq<char>> {
    if at(s.rest, '@') { Ok((skip(s, 1), ob)) }
    else if ulen(s.rest) < 2 { Err(ErrK::InvalidStringLiteral) }
    else {
        let r = p_wchar_lit(s)?;
        let ob = (if len != 2 || trunc { o_esc(ob, r.1) } else { Ok(ob) })?;
        if r.0.rest.len() >= s.rest.len() { Err(ErrK::Stuck) }
        else { p_wide(r.0, if len >= 2 { len - 2 } else { 0 }, trunc, ob) }
    }
}

#[dec(s.rest.len())]
fn p_bytes(s: PS, bs: Seq<int>) -> PR<Seq<int>> {
    if at(s.rest, '@') { Ok((skip(s, 1), bs)) }
    else if s.rest.len() == 0 { Err(ErrK::InvalidStringLiteral) }
    else {
        let r = p_char_lit(s)?;
        if bs.len() >= 128 { Err(ErrK::InvalidStringLiteral) }
        else if r.0.rest.len() >= s.rest.len() { Err(ErrK::Stuck) }
        else { p_bytes(r.0, bs.push(r.1)) }
    }
}

// zero bytes at the end of the first `n`
#[dec(n)]
fn trailing_nulls(bs: Seq<int>, n: int) -> int {
    if n <= 0 || n > bs.len() as int || bs[n - 1] != 0 { 0 } else { 1 + trailing_nulls(bs, n - 1) }
}

// zero bytes among the first `n`
#[dec(n)]
fn nulls(bs: Seq<int>, n: int) -> int {
    if n <= 0 || n > bs.len() as int { 0 } else if bs[n - 1] == 0 { nulls(bs, n - 1) + 1 } else { nulls(bs, n - 1) }
}

fn char_size(bs: Seq<int>, len: int) -> Option<int> {
    if len == 0 { None }
    else if len % 2 == 1 { Some(1) }
    else if len < 32 {
        let t = trailing_nulls(bs, bs.len() as int);
        if t >= 4 && len % 4 == 0 { Some(4) } else if t >= 2 { Some(2) } else { Some(1) }
    } else {
        let t = nulls(bs, bs.len() as int);
        if t >= 2 * (bs.len() as int) / 3 && len % 4 == 0 { Some(4) }
        else if t >= (bs.len() as int) / 3 { Some(2) }
        else { Some(1) }
    }
}

// little endian
fn code_unit(bs: Seq<int>, i: int, size: int) -> Option<int> {
    if i < 0 || (i + 1) * size > bs.len() as int { None }
    else if size == 1 { Some(bs[i]) }
    else if size == 2 { Some(bs[i * 2] + 256 * bs[i * 2 + 1]) }
    else if size == 4 { Some(bs[i * 4] + 256 * bs[i * 4 + 1] + 65536 * bs[i * 4 + 2] + 16777216 * bs[i * 4 + 3]) }
    else { None }
}

#[dec(num - i)]
fn o_units(bs: Seq<int>, i: int, num: int, size: int, trunc: bool, ob: Seq<char>) -> OR {
    if i < 0 || i >= num { Ok(ob) }
    else {
        match code_unit(bs, i, size) {
            None => Err(ErrK::InvalidStringLiteral),
            Some(c) => {
                let ob = (if i + 1 < num || trunc { o_esc(ob, c) } else { Ok(ob) })?;
                o_units(bs, i + 1, num, size, trunc, ob)
            }
        }
    }
}

fn p_string(s: PS) -> PR<int> {
    let s = expect_str(s, lit("@_"), ErrK::InvalidStringLiteral)?;
    let w = any(s, ErrK::InvalidStringLiteral)?;
    if w.1 != '0' && w.1 != '1' {
        Err(ErrK::InvalidStringLiteral)
    } else {
        let wide = w.1 == '1';
        let n = p_number(w.0)?;
        let len = n.1.0;
        if n.1.1 || len < (if wide { 2 as int } else { 1 as int }) {
            Err(ErrK::InvalidStringLiteral)
        } else {
            match find(n.0.rest, '@') {
                None => Err(ErrK::InvalidStringLiteral),
                Some(i) => {
                    let s2 = skip(n.0, i + 1);
                    if s2.rest.len() == 0 {
                        Err(ErrK::InvalidStringLiteral)
                    } else if wide {
                        let r = p_wide(s2, len, len > 64, Seq::empty())?;
                        intern(r.0, SNode::Str { name: None, text: r.1, trunc: len > 64, ch: CharKind::Wchar })
                    } else {
                        let r = p_bytes(s2, Seq::empty())?;
                        let trunc = len > r.1.len() as int;
                        match char_size(r.1, len) {
                            None => Err(ErrK::InvalidStringLiteral),
                            Some(size) => {
                                let t = o_units(r.1, 0, (r.1.len() as int) / size, size, trunc, Seq::empty())?;
                                intern(r.0, SNode::Str {
                                    name: None,
                                    text: t,
                                    trunc: trunc,
                                    ch: if size == 1 { CharKind::Char } else if size == 2 { CharKind::Char16 } else { CharKind::Char32 },
                                })
                            }
                        }
                    }
                }
            }
        }
    }
}

// ---- MD5 names: ??@ ... @ [??_R4@], reproduced as they are

fn p_synth(s: PS, h: int) -> PR<int> {
    let r = intern(s, SNode::Array { nodes: one(h) })?;
    intern(r.0, SNode::QName { comps: r.1 })
}

fn p_md5(s: PS) -> PR<int> {
    let all = s.rest;
    let s1 = expect_str(s, lit("??@"), ErrK::InvalidMd5Name)?;
    match find(s1.rest, '@') {
        None => Err(ErrK::InvalidMd5Name),
        Some(i) => {
            let s2 = skip(s1, i + 1);
            let tail = starts(s2.rest, lit("??_R4@"));
            let s3 = if tail { skip(s2, lit("??_R4@").len() as int) } else { s2 };
            let t = all.subrange(0, all.len() as int - s3.rest.len() as int);
            let r = intern(s3, named(t))?;
            let q = p_synth(r.0, r.1)?;
            intern(q.0, SNode::Md5 { name: q.1 })
        }
    }
}

// ---- names

fn enter(d: int) -> bool { d < MAX_NESTING }

// ?$ <name> <parameters> @
#[dec(MAX_NESTING - d, 0)]
fn p_template(s: PS, d: int, nbb: u8) -> PR<int> {
    if !enter(d) { Err(ErrK::MaliciousInput) } else { p_template_body(s, d + 1, nbb) }
}

#[dec(MAX_NESTING - d, 50)]
fn p_template_body(s: PS, d: int, nbb: u8) -> PR<int> {
    let s1 = expect_str(s, lit("?$"), ErrK::InvalidTemplateInstantiationName)?;
    let inner = PS { fp: Seq::empty(), nm: Seq::empty(), ..s1 };
    let id = p_unq_symbol(inner, d, NBB_SIMPLE)?;
    let tp = p_tparams(id.0, d)?;
    let s4 = upd(tp.0, id.1, set_tparams_of(tp.0.nodes[id.1], tp.1));
    let s5 = PS { fp: s1.fp, nm: s1.nm, ..s4 };
    if nbb & NBB_TEMPLATE == NBB_TEMPLATE {
        if is_conv(s5.nodes[id.1]) || is_structor(s5.nodes[id.1]) {
            Err(ErrK::InvalidTemplateInstantiationName)
        } else {
            let s6 = p_memorize_ident(s5, id.1)?;
            Ok((s6, id.1))
        }
    } else {
        Ok((s5, id.1))
    }
}

#[dec(MAX_NESTING - d, 1)]
fn p_unq_type(s: PS, d: int, memorize: bool) -> PR<int> {
    if at_digit(s.rest) { p_back_ref(s) }
    else if starts(s.rest, lit("?$")) { p_template(s, d, NBB_TEMPLATE) }
    else { p_simple_name(s, memorize) }
}

#[dec(MAX_NESTING - d, 1)]
fn p_unq_symbol(s: PS, d: int, nbb: u8) -> PR<int> {
    if at_digit(s.rest) { p_back_ref(s) }
    else if starts(s.rest, lit("?$")) { p_template(s, d, nbb) }
    else if starts(s.rest, lit("?")) { p_ident_code(s) }
    else { p_simple_name(s, nbb & NBB_SIMPLE == NBB_SIMPLE) }
}

fn o_local(nodes: Seq<SNode>, flags: u16, scope: int, number: int) -> OR {
    let ob = put(Seq::empty(), lit("`"))?;
    let ob = render(nodes, flags, scope, ob)?;
    let ob = put(ob, lit("'::`"))?;
    let ob = put(ob, dec(number))?;
    put(ob, lit("'"))
}

#[dec(MAX_NESTING - d, 1)]
fn p_local_scope(s: PS, d: int) -> PR<int> {
    let s1 = expect_char(s, '?', ErrK::InvalidLocallyScopedNamePiece)?;
    let n = p_number(s1)?;
    if n.1.1 {
        Err(ErrK::InvalidLocallyScopedNamePiece)
    } else {
        let s2 = expect_char(n.0, '?', ErrK::InvalidLocallyScopedNamePiece)?;
        let r = p_parse(s2, d)?;
        let t = o_local(r.0.nodes, 0, r.1, n.1.0)?;
        let st = (if r.0.fl == 0 { Ok(None) } else {
            let t2 = o_local(r.0.nodes, r.0.fl, r.1, n.1.0)?;
            Ok(Some(t2))
        })?;
        intern(r.0, SNode::Named { tp: None, name: t, styled: st })
    }
}

#[dec(MAX_NESTING - d, 2)]
fn p_scope_piece(s: PS, d: int) -> PR<int> {
    if at_digit(s.rest) { p_back_ref(s) }
    else if starts(s.rest, lit("?$")) { p_template(s, d, NBB_TEMPLATE) }
    else if starts(s.rest, lit("?A")) { p_anon_namespace(s) }
    else if local_scope_pattern(s.rest) { p_local_scope(s, d) }
    else { p_simple_name(s, true) }
}

#[dec(MAX_NESTING - d, 3, s.rest.len())]
fn p_chain_from(s: PS, d: int, acc: Seq<int>) -> PR<int> {
    if at(s.rest, '@') {
        let r = intern(skip(s, 1), SNode::Array { nodes: rev(acc) })?;
        intern(r.0, SNode::QName { comps: r.1 })
    } else if s.rest.len() == 0 {
        Err(ErrK::InvalidNameScopeChain)
    } else {
        let r = p_scope_piece(s, d)?;
        if r.0.rest.len() >= s.rest.len() { Err(ErrK::Stuck) }
        else { p_chain_from(r.0, d, acc.push(r.1)) }
    }
}

#[dec(MAX_NESTING - d, 4)]
fn p_chain(s: PS, d: int, h: int) -> PR<int> { p_chain_from(s, d, one(h)) }

#[dec(MAX_NESTING - d, 5)]
fn p_fq_type(s: PS, d: int) -> PR<int> {
    let r = p_unq_type(s, d, true)?;
    p_chain(r.0, d, r.1)
}

#[dec(MAX_NESTING - d, 5)]
fn p_fq_symbol(s: PS, d: int) -> PR<int> {
    let id = p_unq_symbol(s, d, NBB_SIMPLE)?;
    let q = p_chain(id.0, d, id.1)?;
    match q.0.nodes[id.1] {
        SNode::Structor { tp, class, dtor } => {
            let cs = comps_of(q.0.nodes, q.1);
            if cs.len() < 2 {
                Err(ErrK::InvalidFullyQualifiedSymbolName)
            } else {
                let c = cs[cs.len() as int - 2];
                if is_ident(q.0.nodes[c]) {
                    Ok((upd(q.0, id.1, SNode::Structor { tp: tp, class: Some(c), dtor: dtor }), q.1))
                } else {
                    Err(ErrK::InvalidFullyQualifiedSymbolName)
                }
            }
        }
        _ => Ok(q),
    }
}

// ---- types

#[dec(MAX_NESTING - d, 0)]
fn p_type(s: PS, d: int, qmm: QualifierMangleMode) -> PR<int> {
    if !enter(d) { Err(ErrK::MaliciousInput) } else { p_type_body(s, d + 1, qmm) }
}

#[dec(MAX_NESTING - d, 50)]
fn p_type_body(s: PS, d: int, qmm: QualifierMangleMode) -> PR<int> {
    let q = (match qmm {
        QualifierMangleMode::Mangle => {
            let r = p_quals(s)?;
            Ok((r.0, r.1.0))
        }
        QualifierMangleMode::Result => if at(s.rest, '?') {
            let r = p_quals(skip(s, 1))?;
            Ok((r.0, r.1.0))
        } else {
            Ok((s, 0))
        },
        QualifierMangleMode::Drop => Ok((s, 0)),
    })?;
    if q.0.rest.len() == 0 {
        Err(ErrK::InvalidType)
    } else {
        let r = p_type_kind(q.0, d)?;
        Ok((upd(r.0, r.1, add_quals_of(r.0.nodes[r.1], q.1)), r.1))
    }
}

#[dec(MAX_NESTING - d, 45)]
fn p_type_kind(s: PS, d: int) -> PR<int> {
    if is_tag_type(s.rest) { p_class(s, d) }
    else if is_pointer_type(s.rest) {
        match member_pointer(s.rest) {
            Some(m) => if m { p_member_ptr(s, d) } else { p_ptr(s, d) },
            None => Err(ErrK::InvalidType),
        }
    }
    else if at(s.rest, 'Y') { p_array(s, d) }
    else if is_function_type(s.rest) {
        if starts(s.rest, lit("$$A8@@")) { p_func_type(skip(s, lit("$$A8@@").len() as int), d, true) }
        else { p_func_type(skip(s, lit("$$A6").len() as int), d, false) }
    }
    else if at(s.rest, '?') { p_custom(s, d) }
    else { p_prim(s) }
}

#[dec(MAX_NESTING - d, 6)]
fn p_custom(s: PS, d: int) -> PR<int> {
    let s1 = expect_char(s, '?', ErrK::InvalidCustomType)?;
    let r = p_unq_type(s1, d, true)?;
    let s2 = expect_char(r.0, '@', ErrK::InvalidCustomType)?;
    intern(s2, SNode::Custom { quals: 0, ident: r.1 })
}

fn p_tag(s: PS) -> PR<TagKind> {
    let r = any(s, ErrK::InvalidClassType)?;
    if r.1 == 'T' { Ok((r.0, TagKind::Union)) }
    else if r.1 == 'U' { Ok((r.0, TagKind::Struct)) }
    else if r.1 == 'V' { Ok((r.0, TagKind::Class)) }
    else if r.1 == 'W' && at(r.0.rest, '4') { Ok((skip(r.0, 1), TagKind::Enum)) }
    else { Err(ErrK::InvalidClassType) }
}

#[dec(MAX_NESTING - d, 6)]
fn p_class(s: PS, d: int) -> PR<int> {
    let t = p_tag(s)?;
    let r = p_fq_type(t.0, d)?;
    intern(r.0, SNode::Tag { quals: 0, name: r.1, tag: t.1 })
}

#[dec(MAX_NESTING - d, 20)]
fn p_ptr(s: PS, d: int) -> PR<int> {
    let cv = p_ptr_cv(s)?;
    let r = (if at(cv.0.rest, '6') {
        let r = p_func_type(skip(cv.0, 1), d, false)?;
        Ok((r.0, (cv.1.0, r.1)))
    } else {
        let e = p_ext_quals(cv.0);
        let r = p_type(e.0, d, QualifierMangleMode::Mangle)?;
        Ok((r.0, (cv.1.0 | e.1, r.1)))
    })?;
    intern(r.0, SNode::Ptr { quals: r.1.0, aff: Some(cv.1.1), parent: None, pointee: r.1.1 })
}

#[dec(MAX_NESTING - d, 20)]
fn p_member_ptr(s: PS, d: int) -> PR<int> {
    let cv = p_ptr_cv(s)?;
    if cv.1.1 != PointerAffinity::Pointer {
        Err(ErrK::InvalidMemberPointerType)
    } else {
        let e = p_ext_quals(cv.0);
        let quals = cv.1.0 | e.1;
        if at(e.0.rest, '8') {
            let c = p_fq_type(skip(e.0, 1), d)?;
            let f = p_func_type(c.0, d, true)?;
            intern(f.0, SNode::Ptr { quals: quals, aff: Some(cv.1.1), parent: Some(c.1), pointee: f.1 })
        } else {
            let q = p_quals(e.0)?;
            if !q.1.1 {
                Err(ErrK::InvalidMemberPointerType)
            } else {
                let c = p_fq_type(q.0, d)?;
                let t = p_type(c.0, d, QualifierMangleMode::Drop)?;
                let s5 = upd(t.0, t.1, set_quals_of(t.0.nodes[t.1], q.1.0));
                intern(s5, SNode::Ptr { quals: quals, aff: Some(cv.1.1), parent: Some(c.1), pointee: t.1 })
            }
        }
    }
}

// this-qualifiers, return type, parameters, exception specification
#[dec(MAX_NESTING - d, 10)]
fn p_func_type(s: PS, d: int, this: bool) -> PR<int> {
    let q = (if this {
        let e = p_ext_quals(s);
        let rq = p_refq(e.0);
        let r = p_quals(rq.0)?;
        Ok((r.0, (e.1 | r.1.0, rq.1)))
    } else {
        Ok((s, (0, None)))
    })?;
    let cc = p_cc(q.0)?;
    let rt = (if at(cc.0.rest, '@') {
        Ok((skip(cc.0, 1), None))
    } else {
        let r = p_type(cc.0, d, QualifierMangleMode::Result)?;
        Ok((r.0, Some(r.1)))
    })?;
    let ps = p_params(rt.0, d)?;
    let th = p_throw(ps.0)?;
    intern(th.0, SNode::Sig {
        f: SFunc {
            quals: q.1.0,
            cc: cc.1,
            class: FC_GLOBAL,
            refq: q.1.1,
            ret: rt.1,
            variadic: ps.1.1,
            params: ps.1.0,
            noexc: th.1,
        },
    })
}

#[dec(MAX_NESTING - d, 1, s.rest.len())]
fn p_params_from(s: PS, d: int, acc: Seq<int>) -> PR<Seq<int>> {
    if at(s.rest, '@') || at(s.rest, 'Z') {
        Ok((s, acc))
    } else if s.rest.len() == 0 {
        Err(ErrK::InvalidFunctionParameterList)
    } else if is_digit(s.rest[0]) {
        let i = ci(s.rest[0]) - 48;
        if i < s.fp.len() as int { p_params_from(skip(s, 1), d, acc.push(s.fp[i])) }
        else { Err(ErrK::InvalidFunctionParameterList) }
    } else {
        let r = p_type(s, d, QualifierMangleMode::Drop)?;
        if r.0.rest.len() >= s.rest.len() {
            Err(ErrK::InvalidFunctionParameterList)
        } else {
            // single-letter types are not worth a back-reference
            let s2 = if s.rest.len() as int - r.0.rest.len() as int > 1 && r.0.fp.len() < 10 {
                PS { fp: r.0.fp.push(r.1), ..r.0 }
            } else {
                r.0
            };
            p_params_from(s2, d, acc.push(r.1))
        }
    }
}

#[dec(MAX_NESTING - d, 2)]
fn p_params(s: PS, d: int) -> PR<(Option<int>, bool)> {
    if at(s.rest, 'X') {
        Ok((skip(s, 1), (None, false)))
    } else {
        let r = p_params_from(s, d, Seq::empty())?;
        let a = intern(r.0, SNode::Array { nodes: r.1 })?;
        if at(a.0.rest, '@') { Ok((skip(a.0, 1), (Some(a.1), false))) }
        else if at(a.0.rest, 'Z') { Ok((skip(a.0, 1), (Some(a.1), true))) }
        else { Err(ErrK::InvalidFunctionParameterList) }
    }
}

#[dec(rank - i)]
fn p_dims(s: PS, rank: int, i: int, acc: Seq<int>) -> PR<Seq<int>> {
    if i < 0 || i >= rank {
        Ok((s, acc))
    } else {
        let n = p_number(s)?;
        if n.1.1 {
            Err(ErrK::InvalidArrayType)
        } else {
            let r = intern(n.0, SNode::Int { value: n.1.0, neg: false })?;
            p_dims(r.0, rank, i + 1, acc.push(r.1))
        }
    }
}

#[dec(MAX_NESTING - d, 1)]
fn p_array(s: PS, d: int) -> PR<int> {
    let s1 = expect_char(s, 'Y', ErrK::InvalidArrayType)?;
    let n = p_number(s1)?;
    if n.1.1 || n.1.0 == 0 {
        Err(ErrK::InvalidArrayType)
    } else {
        let ds = p_dims(n.0, n.1.0, 0, Seq::empty())?;
        let a = intern(ds.0, SNode::Array { nodes: ds.1 })?;
        let q = (if starts(a.0.rest, lit("$$C")) {
            let r = p_quals(skip(a.0, lit("$$C").len() as int))?;
            if r.1.1 { Err(ErrK::InvalidArrayType) } else { Ok((r.0, r.1.0)) }
        } else {
            Ok((a.0, 0))
        })?;
        let e = p_type(q.0, d, QualifierMangleMode::Drop)?;
        intern(e.0, SNode::Arr { quals: q.1, dims: a.1, elem: e.1 })
    }
}

// ---- template parameters

fn pack_separator(r: Seq<char>) -> int {
    if starts(r, lit("$S")) { lit("$S").len() as int }
    else if starts(r, lit("$$V")) { lit("$$V").len() as int }
    else if starts(r, lit("$$$V")) { lit("$$$V").len() as int }
    else if starts(r, lit("$$Z")) { lit("$$Z").len() as int }
    else { 0 }
}

// the letter that says what kind of value follows; spelled without `$` after `$M`
fn value_code(r: Seq<char>, auto: bool, c: char) -> bool {
    if auto { at(r, c) } else { at(r, '$') && r.len() > 1 && r[1] == c }
}

fn value_len(auto: bool) -> int { if auto { 1 } else { 2 } }

fn member_fn_offsets(r: Seq<char>, auto: bool) -> Option<int> {
    if value_code(r, auto, '1') { Some(0) }
    else if value_code(r, auto, 'H') { Some(1) }
    else if value_code(r, auto, 'I') { Some(2) }
    else if value_code(r, auto, 'J') { Some(3) }
    else { None }
}

fn member_data_offsets(r: Seq<char>, auto: bool) -> Option<int> {
    if value_code(r, auto, 'F') { Some(2) }
    else if value_code(r, auto, 'G') { Some(3) }
    else { None }
}

#[dec(n - acc.len())]
fn p_offsets(s: PS, n: int, acc: Seq<int>) -> PR<Seq<int>> {
    if acc.len() as int >= n {
        Ok((s, acc))
    } else {
        let r = p_signed(s)?;
        p_offsets(r.0, n, acc.push(r.1))
    }
}

#[dec(MAX_NESTING - d, 6)]
fn p_tparam_value(s: PS, d: int, auto: bool) -> PR<int> {
    if starts(s.rest, lit("$$Y")) { p_fq_type(skip(s, lit("$$Y").len() as int), d) }
    else if starts(s.rest, lit("$$B")) { p_type(skip(s, lit("$$B").len() as int), d, QualifierMangleMode::Drop) }
    else if starts(s.rest, lit("$$C")) { p_type(skip(s, lit("$$C").len() as int), d, QualifierMangleMode::Mangle) }
    else {
        match member_fn_offsets(s.rest, auto) {
            Some(k) => p_tparam_member_fn(skip(s, value_len(auto)), d, k),
            None => if starts(s.rest, lit("$E?")) {
                let r = p_parse(skip(s, lit("$E").len() as int), d)?;
                intern(r.0, SNode::TRef { symbol: Some(r.1), offs: Seq::empty(), aff: Some(PointerAffinity::Reference) })
            } else {
                match member_data_offsets(s.rest, auto) {
                    Some(k) => {
                        let o = p_offsets(skip(s, value_len(auto)), k, Seq::empty())?;
                        intern(o.0, SNode::TRef { symbol: None, offs: o.1, aff: None })
                    }
                    None => if value_code(s.rest, auto, '0') {
                        let n = p_number(skip(s, value_len(auto)))?;
                        intern(n.0, SNode::Int { value: n.1.0, neg: n.1.1 })
                    } else {
                        p_type(s, d, QualifierMangleMode::Drop)
                    },
                }
            },
        }
    }
}

#[dec(MAX_NESTING - d, 1)]
fn p_tparam_member_fn(s: PS, d: int, k: int) -> PR<int> {
    let sy = (if starts(s.rest, lit("?")) {
        let r = p_parse(s, d)?;
        match name_of(r.0.nodes[r.1]) {
            None => Err(ErrK::InvalidTemplateParameterList),
            Some(q) => match unqualified(r.0.nodes, q) {
                None => Err(ErrK::InvalidTemplateParameterList),
                Some(i) => {
                    let s2 = p_memorize_ident(r.0, i)?;
                    Ok((s2, Some(r.1)))
                }
            },
        }
    } else {
        Ok((s, None))
    })?;
    let o = p_offsets(sy.0, k, Seq::empty())?;
    intern(o.0, SNode::TRef { symbol: sy.1, offs: o.1, aff: Some(PointerAffinity::Pointer) })
}

#[dec(MAX_NESTING - d, 7, s.rest.len())]
fn p_tparams_from(s: PS, d: int, acc: Seq<int>) -> PR<Seq<int>> {
    if at(s.rest, '@') {
        Ok((skip(s, 1), acc))
    } else if pack_separator(s.rest) > 0 {
        p_tparams_from(skip(s, pack_separator(s.rest)), d, acc)
    } else if s.rest.len() == 0 {
        Err(ErrK::InvalidTemplateParameterList)
    } else {
        let auto = starts(s.rest, lit("$M"));
        // the deduced type of an auto parameter isn't printed
        let s2 = (if auto {
            let r = p_type(skip(s, lit("$M").len() as int), d, QualifierMangleMode::Drop)?;
            Ok(r.0)
        } else {
            Ok(s)
        })?;
        let r = p_tparam_value(s2, d, auto)?;
        if r.0.rest.len() >= s.rest.len() { Err(ErrK::Stuck) }
        else { p_tparams_from(r.0, d, acc.push(r.1)) }
    }
}

#[dec(MAX_NESTING - d, 8)]
fn p_tparams(s: PS, d: int) -> PR<int> {
    let r = p_tparams_from(s, d, Seq::empty())?;
    intern(r.0, SNode::Array { nodes: r.1 })
}

// ---- symbols

#[dec(MAX_NESTING - d, 20)]
fn p_var_encoding(s: PS, d: int, sc: StorageClass) -> PR<int> {
    let t = p_type(s, d, QualifierMangleMode::Drop)?;
    let s2 = (match t.0.nodes[t.1] {
        SNode::Ptr { quals, aff, parent, pointee } => {
            let e = p_ext_quals(t.0);
            let s3 = upd(e.0, t.1, SNode::Ptr { quals: quals | e.1, aff: aff, parent: parent, pointee: pointee });
            let q = p_quals(s3)?;
            let s4 = (match parent {
                Some(p) => {
                    let r = p_fq_type(q.0, d)?;
                    Ok(r.0)
                }
                None => Ok(q.0),
            })?;
            Ok(upd(s4, pointee, add_quals_of(s4.nodes[pointee], q.1.0)))
        }
        _ => {
            let q = p_quals(t.0)?;
            Ok(upd(q.0, t.1, set_quals_of(q.0.nodes[t.1], q.1.0)))
        }
    })?;
    intern(s2, SNode::Var { name: None, sc: Some(sc), ty: Some(t.1) })
}

// the adjustments a thunk makes, if this is one: (static, vbptr, vboffset, vtordisp)
fn p_adjust(s: PS, fc: u16) -> PR<Option<(int, int, int, int)>> {
    if fc & FC_STA == FC_STA {
        let a = p_signed(s)?;
        Ok((a.0, Some((tr_u32(a.1), 0, 0, 0))))
    } else if fc & FC_VTA == FC_VTA {
        let x = (if fc & FC_VTAEX == FC_VTAEX {
            let a = p_signed(s)?;
            let b = p_signed(a.0)?;
            Ok((b.0, (tr_i32(a.1), tr_i32(b.1))))
        } else {
            Ok((s, (0, 0)))
        })?;
        let c = p_signed(x.0)?;
        let e = p_signed(c.0)?;
        Ok((e.0, Some((tr_u32(e.1), x.1.0, x.1.1, tr_i32(c.1)))))
    } else {
        Ok((s, None))
    }
}

#[dec(MAX_NESTING - d, 20)]
fn p_func_encoding(s: PS, d: int) -> PR<int> {
    let ext = starts(s.rest, lit("$$J0"));
    let s1 = if ext { skip(s, lit("$$J0").len() as int) } else { s };
    if s1.rest.len() == 0 {
        Err(ErrK::InvalidFunctionEncoding)
    } else {
        let c = p_func_class(s1)?;
        let fc = c.1 | (if ext { FC_EXTERNC } else { 0 });
        let adj = p_adjust(c.0, fc)?;
        let f = (if fc & FC_NOPARAMS == FC_NOPARAMS {
            intern(adj.0, SNode::Sig { f: default_sig() })
        } else {
            p_func_type(adj.0, d, fc & (FC_GLOBAL | FC_STATIC) == 0)
        })?;
        let g = (match adj.1 {
            Some(a) => match sfunc_of(f.0.nodes[f.1]) {
                Some(sf) => intern(f.0, SNode::Thunk { f: sf, so: a.0, vbp: a.1, vbo: a.2, vtd: a.3 }),
                None => Err(ErrK::Stuck),
            },
            None => Ok(f),
        })?;
        let s5 = upd(g.0, g.1, set_class_of(g.0.nodes[g.1], fc));
        intern(s5, SNode::Func { name: None, sig: g.1 })
    }
}

fn ret_of(nodes: Seq<SNode>, f: int) -> Option<int> {
    match nodes[f] {
        SNode::Func { name, sig } => match sfunc_of(nodes[sig]) {
            Some(sf) => sf.ret,
            None => None,
        },
        _ => None,
    }
}

#[dec(MAX_NESTING - d, 21)]
fn p_encoded(s: PS, d: int, q: int) -> PR<int> {
    if s.rest.len() == 0 {
        Err(ErrK::InvalidEncodedSymbol)
    } else if ci(s.rest[0]) >= 48 && ci(s.rest[0]) <= 52 {
        let sc = p_sc(s)?;
        p_var_encoding(sc.0, d, sc.1)
    } else {
        let f = p_func_encoding(s, d)?;
        match unqualified(f.0.nodes, q) {
            None => Err(ErrK::InvalidEncodedSymbol),
            Some(u) => match f.0.nodes[u] {
                SNode::Conv { tp, target } => Ok((upd(f.0, u, SNode::Conv { tp: tp, target: ret_of(f.0.nodes, f.1) }), f.1)),
                _ => Ok(f),
            },
        }
    }
}

#[dec(MAX_NESTING - d, 22)]
fn p_declarator(s: PS, d: int) -> PR<int> {
    let q = p_fq_symbol(s, d)?;
    let y = p_encoded(q.0, d, q.1)?;
    let s3 = upd(y.0, y.1, set_name_of(y.0.nodes[y.1], q.1));
    match unqualified(s3.nodes, q.1) {
        None => Err(ErrK::InvalidDeclarator),
        Some(u) => match s3.nodes[u] {
            SNode::Conv { tp, target } => match target {
                None => Err(ErrK::InvalidDeclarator),
                Some(t) => Ok((s3, y.1)),
            },
            _ => Ok((s3, y.1)),
        },
    }
}

#[dec(MAX_NESTING - d, 1)]
fn p_typeinfo(s: PS, d: int) -> PR<int> {
    let s1 = expect_char(s, '.', ErrK::InvalidTypeinfoName)?;
    let t = p_type(s1, d, QualifierMangleMode::Result)?;
    if t.0.rest.len() > 0 { Err(ErrK::InvalidTypeinfoName) }
    else { intern(t.0, SNode::Var { name: Some(SVarName::TypeDescriptor), sc: None, ty: Some(t.1) }) }
}

fn table_name(k: SpecialIntrinsicKind) -> Option<Seq<char>> {
    match k {
        SpecialIntrinsicKind::Vftable => Some(lit("`vftable'")),
        SpecialIntrinsicKind::Vbtable => Some(lit("`vbtable'")),
        SpecialIntrinsicKind::LocalVftable => Some(lit("`local vftable'")),
        SpecialIntrinsicKind::RttiCompleteObjLocator => Some(lit("`RTTI Complete Object Locator'")),
        _ => None,
    }
}

#[dec(MAX_NESTING - d, 6)]
fn p_table(s: PS, d: int, k: SpecialIntrinsicKind) -> PR<int> {
    match table_name(k) {
        None => Err(ErrK::InvalidSpecialTableSymbolNode),
        Some(t) => {
            let n = intern(s, named(t))?;
            let q = p_chain(n.0, d, n.1)?;
            if !(at(q.0.rest, '6') || at(q.0.rest, '7')) {
                Err(ErrK::InvalidSpecialTableSymbolNode)
            } else {
                let quals = p_quals(skip(q.0, 1))?;
                if at(quals.0.rest, '@') {
                    intern(skip(quals.0, 1), SNode::Table { name: q.1, target: None, quals: quals.1.0 })
                } else {
                    let t = p_fq_type(quals.0, d)?;
                    intern(t.0, SNode::Table { name: q.1, target: Some(t.1), quals: quals.1.0 })
                }
            }
        }
    }
}

#[dec(MAX_NESTING - d, 6)]
fn p_guard(s: PS, d: int, thread: bool) -> PR<int> {
    let g = intern(s, SNode::Guard { tp: None, thread: thread, scope: 0 })?;
    let q = p_chain(g.0, d, g.1)?;
    let s3 = (if starts(q.0.rest, lit("4IA")) { Ok(skip(q.0, lit("4IA").len() as int)) }
        else if at(q.0.rest, '5') { Ok(skip(q.0, 1)) }
        else { Err(ErrK::InvalidLocalStaticGuard) })?;
    let s4 = (if s3.rest.len() > 0 {
        let n = p_unsigned(s3)?;
        let n = to_u32(n, ErrK::InvalidLocalStaticGuard)?;
        match n.0.nodes[g.1] {
            SNode::Guard { tp, thread, scope } => Ok(upd(n.0, g.1, SNode::Guard { tp: tp, thread: thread, scope: n.1 })),
            _ => Err(ErrK::Stuck),
        }
    } else {
        Ok(s3)
    })?;
    intern(s4, SNode::GuardVar { name: q.1 })
}

#[dec(MAX_NESTING - d, 6)]
fn p_untyped(s: PS, d: int, t: Seq<char>) -> PR<int> {
    let n = intern(s, named(t))?;
    let q = p_chain(n.0, d, n.1)?;
    let s3 = expect_char(q.0, '8', ErrK::InvalidUntypedVariable)?;
    intern(s3, SNode::Var { name: Some(SVarName::Q(q.1)), sc: None, ty: None })
}

#[dec(MAX_NESTING - d, 6)]
fn p_rtti_base(s: PS, d: int) -> PR<int> {
    let a = p_unsigned(s)?;
    let a = to_u32(a, ErrK::InvalidRttiBaseClassDescriptorNode)?;
    let b = p_signed(a.0)?;
    let b = to_i32(b, ErrK::InvalidRttiBaseClassDescriptorNode)?;
    let c = p_unsigned(b.0)?;
    let c = to_u32(c, ErrK::InvalidRttiBaseClassDescriptorNode)?;
    let f = p_unsigned(c.0)?;
    let f = to_u32(f, ErrK::InvalidRttiBaseClassDescriptorNode)?;
    let n = intern(f.0, SNode::Rtti { tp: None, nv: a.1, vbp: b.1, vbt: c.1, fl: f.1 })?;
    let q = p_chain(n.0, d, n.1)?;
    let s3 = expect_char(q.0, '8', ErrK::InvalidRttiBaseClassDescriptorNode)?;
    intern(s3, SNode::Var { name: Some(SVarName::Q(q.1)), sc: None, ty: None })
}

fn set_fname(s: PS, f: int, q: int) -> PS {
    match s.nodes[f] {
        SNode::Func { name, sig } => upd(s, f, SNode::Func { name: Some(q), sig: sig }),
        _ => s,
    }
}

#[dec(MAX_NESTING - d, 23)]
fn p_init_fini(s: PS, d: int, dtor: bool) -> PR<int> {
    let known = at(s.rest, '?');
    let y = p_declarator(if known { skip(s, 1) } else { s }, d)?;
    match y.0.nodes[y.1] {
        SNode::Var { name, sc, ty } => {
            let s2 = (if known { expect_str(y.0, lit("@@"), ErrK::InvalidInitFiniStub) } else { expect_char(y.0, '@', ErrK::InvalidInitFiniStub) })?;
            let f = p_func_encoding(s2, d)?;
            let i = intern(f.0, SNode::DynStruct { tp: None, is_var: true, target: y.1, dtor: dtor })?;
            let q = p_synth(i.0, i.1)?;
            Ok((set_fname(q.0, f.1, q.1), f.1))
        }
        SNode::Func { name, sig } => {
            if known {
                Err(ErrK::InvalidInitFiniStub)
            } else {
                match name {
                    None => Err(ErrK::InvalidInitFiniStub),
                    Some(nm) => {
                        let i = intern(y.0, SNode::DynStruct { tp: None, is_var: false, target: nm, dtor: dtor })?;
                        let q = p_synth(i.0, i.1)?;
                        Ok((set_fname(q.0, y.1, q.1), y.1))
                    }
                }
            }
        }
        _ => Err(ErrK::InvalidInitFiniStub),
    }
}

#[dec(MAX_NESTING - d, 6)]
fn p_vcall(s: PS, d: int) -> PR<int> {
    let v = intern(s, SNode::Vcall { tp: None, off: 0 })?;
    let q = p_chain(v.0, d, v.1)?;
    let s3 = expect_str(q.0, lit("$B"), ErrK::InvalidVcallThunkNode)?;
    let o = p_unsigned(s3)?;
    match o.0.nodes[v.1] {
        SNode::Vcall { tp, off } => {
            let s4 = upd(o.0, v.1, SNode::Vcall { tp: tp, off: o.1 });
            let s5 = expect_char(s4, 'A', ErrK::InvalidVcallThunkNode)?;
            let cc = p_cc(s5)?;
            let g = intern(cc.0, SNode::Thunk { f: SFunc { cc: cc.1, class: FC_NOPARAMS, ..default_sig() }, so: 0, vbp: 0, vbo: 0, vtd: 0 })?;
            intern(g.0, SNode::Func { name: Some(q.1), sig: g.1 })
        }
        _ => Err(ErrK::Stuck),
    }
}

#[dec(MAX_NESTING - d, 1)]
fn p_rtti_type(s: PS, d: int) -> PR<int> {
    let t = p_type(s, d, QualifierMangleMode::Result)?;
    let s2 = expect_str(t.0, lit("@8"), ErrK::InvalidSpecialIntrinsic)?;
    if s2.rest.len() > 0 {
        Err(ErrK::InvalidSpecialIntrinsic)
    } else {
        let n = intern(s2, named(lit("`RTTI Type Descriptor'")))?;
        let q = p_synth(n.0, n.1)?;
        intern(q.0, SNode::Var { name: Some(SVarName::Q(q.1)), sc: None, ty: Some(t.1) })
    }
}

#[dec(MAX_NESTING - d, 24)]
fn p_special(s: PS, d: int, k: SpecialIntrinsicKind) -> PR<int> {
    match k {
        SpecialIntrinsicKind::StringLiteralSymbol => p_string(s),
        SpecialIntrinsicKind::Vftable => p_table(s, d, k),
        SpecialIntrinsicKind::Vbtable => p_table(s, d, k),
        SpecialIntrinsicKind::LocalVftable => p_table(s, d, k),
        SpecialIntrinsicKind::RttiCompleteObjLocator => p_table(s, d, k),
        SpecialIntrinsicKind::VcallThunk => p_vcall(s, d),
        SpecialIntrinsicKind::LocalStaticGuard => p_guard(s, d, false),
        SpecialIntrinsicKind::LocalStaticThreadGuard => p_guard(s, d, true),
        SpecialIntrinsicKind::RttiTypeDescriptor => p_rtti_type(s, d),
        SpecialIntrinsicKind::RttiBaseClassArray => p_untyped(s, d, lit("`RTTI Base Class Array'")),
        SpecialIntrinsicKind::RttiClassHierarchyDescriptor => p_untyped(s, d, lit("`RTTI Class Hierarchy Descriptor'")),
        SpecialIntrinsicKind::RttiBaseClassDescriptor => p_rtti_base(s, d),
        SpecialIntrinsicKind::DynamicInitializer => p_init_fini(s, d, false),
        SpecialIntrinsicKind::DynamicAtexitDestructor => p_init_fini(s, d, true),
        SpecialIntrinsicKind::Typeof => Err(ErrK::InvalidSpecialIntrinsic),
        SpecialIntrinsicKind::UdtReturning => Err(ErrK::InvalidSpecialIntrinsic),
    }
}

#[dec(MAX_NESTING - d, 25)]
fn p_special_intrinsic(s: PS, d: int) -> PR<Option<int>> {
    match sik_of(s.rest) {
        None => Ok((s, None)),
        Some(k) => {
            let r = p_special(skip(s, sik_len(k)), d, k)?;
            Ok((r.0, Some(r.1)))
        }
    }
}

#[dec(MAX_NESTING - d, 0)]
fn p_parse(s: PS, d: int) -> PR<int> {
    if !enter(d) { Err(ErrK::MaliciousInput) } else { p_parse_body(s, d + 1) }
}

#[dec(MAX_NESTING - d, 50)]
fn p_parse_body(s: PS, d: int) -> PR<int> {
    if starts(s.rest, lit(".")) { p_typeinfo(s, d) }
    else if starts(s.rest, lit("??@")) { p_md5(s) }
    else {
        let s1 = expect_char(s, '?', ErrK::Eof)?;
        let r = p_special_intrinsic(s1, d)?;
        match r.1 {
            Some(h) => Ok((r.0, h)),
            None => p_declarator(r.0, d),
        }
    }
}

fn start(input: Seq<char>, flags: u16) -> PS {
    PS { rest: input, nodes: Seq::empty(), fp: Seq::empty(), nm: Seq::empty(), fl: flags }
}

// ---- the whole thing

fn demangled(input: Seq<char>, flags: u16) -> OR {
    let r = p_parse(start(input, flags), 0)?;
    render(r.0.nodes, flags, r.1, Seq::empty())
}
