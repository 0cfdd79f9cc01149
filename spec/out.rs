// What a tree looks like when printed.

type OR = Result<Seq<char>, ErrK>;

fn fl_has(flags: u16, bit: u16) -> bool { flags & bit == bit }

// Appending text, within the limit on the size of the output.
fn put(ob: Seq<char>, t: Seq<char>) -> OR {
    if ulen(ob.add(t)) < MAX_BYTES { Ok(ob.add(t)) } else { Err(ErrK::Oom) }
}

fn put_if(c: bool, ob: Seq<char>, t: Seq<char>) -> OR {
    if c { put(ob, t) } else { Ok(ob) }
}

fn space_if_necessary(ob: Seq<char>) -> OR {
    if ob.len() > 0 && (alnum(ob[ob.len() as int - 1]) || ob[ob.len() as int - 1] == '>') {
        put(ob, lit(" "))
    } else {
        Ok(ob)
    }
}

// ---- qualifiers

fn qual_text(flags: u16, m: u8) -> Seq<char> {
    if m == Q_CONST { lit("const") }
    else if m == Q_VOLATILE { lit("volatile") }
    else if fl_has(flags, F_UNDERSCORE) { lit("restrict") }
    else { lit("__restrict") }
}

fn qual_suppressed(flags: u16, m: u8) -> bool { m == Q_RESTRICT && fl_has(flags, F_MSKW) }

fn o_qual(flags: u16, q: u8, m: u8, space: bool, ob: Seq<char>) -> Result<(Seq<char>, bool), ErrK> {
    if q & m != m || qual_suppressed(flags, m) {
        Ok((ob, space))
    } else {
        let ob = put_if(space, ob, lit(" "))?;
        let ob = put(ob, qual_text(flags, m))?;
        Ok((ob, true))
    }
}

fn o_quals(flags: u16, q: u8, before: bool, after: bool, ob: Seq<char>) -> OR {
    if q == 0 {
        Ok(ob)
    } else {
        let r1 = o_qual(flags, q, Q_CONST, before, ob)?;
        let r2 = o_qual(flags, q, Q_VOLATILE, r1.1, r1.0)?;
        let r3 = o_qual(flags, q, Q_RESTRICT, r2.1, r2.0)?;
        put_if(after && ulen(r3.0) > ulen(ob), r3.0, lit(" "))
    }
}

// ---- tables

fn cc_text(flags: u16, cc: CallingConv) -> Seq<char> {
    if fl_has(flags, F_UNDERSCORE) {
        match cc {
            CallingConv::Cdecl => lit("cdecl"),
            CallingConv::Fastcall => lit("fastcall"),
            CallingConv::Pascal => lit("pascal"),
            CallingConv::Stdcall => lit("stdcall"),
            CallingConv::Thiscall => lit("thiscall"),
            CallingConv::Eabi => lit("eabi"),
            CallingConv::Vectorcall => lit("vectorcall"),
            CallingConv::Clrcall => lit("clrcall"),
            CallingConv::Swift => lit("__attribute__((__swiftcall__)) "),
            CallingConv::SwiftAsync => lit("__attribute__((__swiftasynccall__)) "),
        }
    } else {
        match cc {
            CallingConv::Cdecl => lit("__cdecl"),
            CallingConv::Fastcall => lit("__fastcall"),
            CallingConv::Pascal => lit("__pascal"),
            CallingConv::Stdcall => lit("__stdcall"),
            CallingConv::Thiscall => lit("__thiscall"),
            CallingConv::Eabi => lit("__eabi"),
            CallingConv::Vectorcall => lit("__vectorcall"),
            CallingConv::Clrcall => lit("__clrcall"),
            CallingConv::Swift => lit("__attribute__((__swiftcall__)) "),
            CallingConv::SwiftAsync => lit("__attribute__((__swiftasynccall__)) "),
        }
    }
}

fn o_cc(flags: u16, cc: CallingConv, ob: Seq<char>) -> OR {
    let ob = space_if_necessary(ob)?;
    put(ob, cc_text(flags, cc))
}

fn prim_text(k: PrimitiveKind) -> Seq<char> {
    match k {
        PrimitiveKind::Void => lit("void"),
        PrimitiveKind::Bool => lit("bool"),
        PrimitiveKind::Char => lit("char"),
        PrimitiveKind::Schar => lit("signed char"),
        PrimitiveKind::Uchar => lit("unsigned char"),
        PrimitiveKind::Char8 => lit("char8_t"),
        PrimitiveKind::Char16 => lit("char16_t"),
        PrimitiveKind::Char32 => lit("char32_t"),
        PrimitiveKind::Short => lit("short"),
        PrimitiveKind::Ushort => lit("unsigned short"),
        PrimitiveKind::Int => lit("int"),
        PrimitiveKind::Uint => lit("unsigned int"),
        PrimitiveKind::Long => lit("long"),
        PrimitiveKind::Ulong => lit("unsigned long"),
        PrimitiveKind::Int64 => lit("__int64"),
        PrimitiveKind::Uint64 => lit("unsigned __int64"),
        PrimitiveKind::Wchar => lit("wchar_t"),
        PrimitiveKind::Float => lit("float"),
        PrimitiveKind::Double => lit("double"),
        PrimitiveKind::Ldouble => lit("long double"),
        PrimitiveKind::Nullptr => lit("std::nullptr_t"),
        PrimitiveKind::Auto => lit("auto"),
        PrimitiveKind::DecltypeAuto => lit("decltype(auto)"),
    }
}

fn tag_text(t: TagKind) -> Seq<char> {
    match t {
        TagKind::Class => lit("class"),
        TagKind::Struct => lit("struct"),
        TagKind::Union => lit("union"),
        TagKind::Enum => lit("enum"),
    }
}

fn op_text(op: IntrinsicFunctionKind) -> Seq<char> {
    match op {
        IntrinsicFunctionKind::New => lit("operator new"),
        IntrinsicFunctionKind::Delete => lit("operator delete"),
        IntrinsicFunctionKind::Assign => lit("operator="),
        IntrinsicFunctionKind::RightShift => lit("operator>>"),
        IntrinsicFunctionKind::LeftShift => lit("operator<<"),
        IntrinsicFunctionKind::LogicalNot => lit("operator!"),
        IntrinsicFunctionKind::Equals => lit("operator=="),
        IntrinsicFunctionKind::NotEquals => lit("operator!="),
        IntrinsicFunctionKind::ArraySubscript => lit("operator[]"),
        IntrinsicFunctionKind::Pointer => lit("operator->"),
        IntrinsicFunctionKind::Increment => lit("operator++"),
        IntrinsicFunctionKind::Decrement => lit("operator--"),
        IntrinsicFunctionKind::Minus => lit("operator-"),
        IntrinsicFunctionKind::Plus => lit("operator+"),
        IntrinsicFunctionKind::Dereference => lit("operator*"),
        IntrinsicFunctionKind::BitwiseAnd => lit("operator&"),
        IntrinsicFunctionKind::MemberPointer => lit("operator->*"),
        IntrinsicFunctionKind::Divide => lit("operator/"),
        IntrinsicFunctionKind::Modulus => lit("operator%"),
        IntrinsicFunctionKind::LessThan => lit("operator<"),
        IntrinsicFunctionKind::LessThanEqual => lit("operator<="),
        IntrinsicFunctionKind::GreaterThan => lit("operator>"),
        IntrinsicFunctionKind::GreaterThanEqual => lit("operator>="),
        IntrinsicFunctionKind::Comma => lit("operator,"),
        IntrinsicFunctionKind::Parens => lit("operator()"),
        IntrinsicFunctionKind::BitwiseNot => lit("operator~"),
        IntrinsicFunctionKind::BitwiseXor => lit("operator^"),
        IntrinsicFunctionKind::BitwiseOr => lit("operator|"),
        IntrinsicFunctionKind::LogicalAnd => lit("operator&&"),
        IntrinsicFunctionKind::LogicalOr => lit("operator||"),
        IntrinsicFunctionKind::TimesEqual => lit("operator*="),
        IntrinsicFunctionKind::PlusEqual => lit("operator+="),
        IntrinsicFunctionKind::MinusEqual => lit("operator-="),
        IntrinsicFunctionKind::DivEqual => lit("operator/="),
        IntrinsicFunctionKind::ModEqual => lit("operator%="),
        IntrinsicFunctionKind::RshEqual => lit("operator>>="),
        IntrinsicFunctionKind::LshEqual => lit("operator<<="),
        IntrinsicFunctionKind::BitwiseAndEqual => lit("operator&="),
        IntrinsicFunctionKind::BitwiseOrEqual => lit("operator|="),
        IntrinsicFunctionKind::BitwiseXorEqual => lit("operator^="),
        IntrinsicFunctionKind::VbaseDtor => lit("`vbase dtor'"),
        IntrinsicFunctionKind::VecDelDtor => lit("`vector deleting dtor'"),
        IntrinsicFunctionKind::DefaultCtorClosure => lit("`default constructor closure'"),
        IntrinsicFunctionKind::ScalarDelDtor => lit("`scalar deleting dtor'"),
        IntrinsicFunctionKind::VecCtorIter => lit("`vector ctor iterator'"),
        IntrinsicFunctionKind::VecDtorIter => lit("`vector dtor iterator'"),
        IntrinsicFunctionKind::VecVbaseCtorIter => lit("`vector vbase ctor iterator'"),
        IntrinsicFunctionKind::VdispMap => lit("`virtual displacement map'"),
        IntrinsicFunctionKind::EHVecCtorIter => lit("`eh vector ctor iterator'"),
        IntrinsicFunctionKind::EHVecDtorIter => lit("`eh vector dtor iterator'"),
        IntrinsicFunctionKind::EHVecVbaseCtorIter => lit("`eh vector vbase ctor iterator'"),
        IntrinsicFunctionKind::CopyCtorClosure => lit("`copy ctor closure'"),
        IntrinsicFunctionKind::LocalVftableCtorClosure => lit("`local vftable ctor closure'"),
        IntrinsicFunctionKind::ArrayNew => lit("operator new[]"),
        IntrinsicFunctionKind::ArrayDelete => lit("operator delete[]"),
        IntrinsicFunctionKind::ManVectorCtorIter => lit("`managed vector ctor iterator'"),
        IntrinsicFunctionKind::ManVectorDtorIter => lit("`managed vector dtor iterator'"),
        IntrinsicFunctionKind::EHVectorCopyCtorIter => lit("`EH vector copy ctor iterator'"),
        IntrinsicFunctionKind::EHVectorVbaseCopyCtorIter => lit("`EH vector vbase copy ctor iterator'"),
        IntrinsicFunctionKind::VectorCopyCtorIter => lit("`vector copy ctor iterator'"),
        IntrinsicFunctionKind::VectorVbaseCopyCtorIter => lit("`vector vbase copy constructor iterator'"),
        IntrinsicFunctionKind::ManVectorVbaseCopyCtorIter => lit("`managed vector vbase copy constructor iterator'"),
        IntrinsicFunctionKind::CoAwait => lit("operator co_await"),
        IntrinsicFunctionKind::Spaceship => lit("operator<=>"),
    }
}

fn str_prefix(ch: CharKind) -> Seq<char> {
    match ch {
        CharKind::Wchar => lit("L\""),
        CharKind::Char => lit("\""),
        CharKind::Char16 => lit("u\""),
        CharKind::Char32 => lit("U\""),
    }
}

// ---- the tree. Rendering `n` only ever descends to nodes of smaller rank; on a tree
// (no cycles) `desc` is true of every child.

fn arr_of(n: SNode) -> Seq<int> {
    match n {
        SNode::Array { nodes } => nodes,
        _ => Seq::empty(),
    }
}

#[dec(nrank(cx.nodes, n), 0)]
fn o_child(cx: Cx, n: SNode, h: int, ob: Seq<char>) -> OR {
    if desc(cx.nodes, n, h) { o_node(cx, cx.nodes[h], ob) } else { Err(ErrK::Stuck) }
}

#[dec(nrank(cx.nodes, n), 0)]
fn pre_child(cx: Cx, n: SNode, h: int, ob: Seq<char>) -> OR {
    if desc(cx.nodes, n, h) { o_pre(cx, cx.nodes[h], ob) } else { Err(ErrK::Stuck) }
}

#[dec(nrank(cx.nodes, n), 0)]
fn post_child(cx: Cx, n: SNode, h: int, ob: Seq<char>) -> OR {
    if desc(cx.nodes, n, h) { o_post(cx, cx.nodes[h], ob) } else { Err(ErrK::Stuck) }
}

#[dec(nrank(cx.nodes, n), 10)]
fn o_child_opt(cx: Cx, n: SNode, h: Option<int>, ob: Seq<char>) -> OR {
    match h {
        Some(h) => o_child(cx, n, h, ob),
        None => Ok(ob),
    }
}

// the elements of array node `n`, from `i` on, each preceded by the separator
#[dec(nrank(cx.nodes, n), 10, arr_of(n).len() - i)]
fn o_rest(cx: Cx, n: SNode, i: int, sep: Seq<char>, ob: Seq<char>) -> OR {
    if i < 0 || i >= arr_of(n).len() as int {
        Ok(ob)
    } else {
        let ob = put(ob, sep)?;
        let ob = o_child(cx, n, arr_of(n)[i], ob)?;
        o_rest(cx, n, i + 1, sep, ob)
    }
}

#[dec(nrank(cx.nodes, n), 20)]
fn o_array(cx: Cx, n: SNode, sep: Seq<char>, ob: Seq<char>) -> OR {
    if arr_of(n).len() == 0 {
        Ok(ob)
    } else {
        let ob = o_child(cx, n, arr_of(n)[0], ob)?;
        o_rest(cx, n, 1, sep, ob)
    }
}

#[dec(nrank(cx.nodes, n), 10)]
fn o_tparams(cx: Cx, n: SNode, tp: Option<int>, ob: Seq<char>) -> OR {
    match tp {
        None => Ok(ob),
        Some(h) => {
            let ob = put(ob, lit("<"))?;
            let ob = o_child(cx, n, h, ob)?;
            put(ob, lit(">"))
        }
    }
}

#[dec(nrank(cx.nodes, n), 0)]
fn o_qname(cx: Cx, n: SNode, comps: int, ob: Seq<char>) -> OR {
    if desc(cx.nodes, n, comps) { o_array(cx, cx.nodes[comps], lit("::"), ob) } else { Err(ErrK::Stuck) }
}

#[dec(nrank(cx.nodes, n), 20)]
fn o_ident(cx: Cx, n: SNode, ob: Seq<char>) -> OR {
    match n {
        SNode::Vcall { tp, off } => {
            let ob = put(ob, lit("`vcall'{"))?;
            let ob = put(ob, dec(off))?;
            put(ob, if fl_has(cx.flags, F_NAMEONLY) { lit("}") } else { lit(", {flat}}") })
        }
        SNode::DynStruct { tp, is_var, target, dtor } => {
            let ob = put(ob, if dtor { lit("`dynamic atexit destructor for ") } else { lit("`dynamic initializer for ") })?;
            let ob = put(ob, if is_var { lit("`") } else { lit("'") })?;
            let ob = o_child(cx, n, target, ob)?;
            put(ob, lit("''"))
        }
        SNode::Named { tp, name, styled } => {
            let ob = put(ob, match styled { Some(t) => if cx.flags != 0 { t } else { name }, None => name })?;
            o_tparams(cx, n, tp, ob)
        }
        SNode::Intrinsic { tp, op } => {
            let ob = (match op { Some(k) => put(ob, op_text(k)), None => Ok(ob) })?;
            o_tparams(cx, n, tp, ob)
        }
        SNode::LitOp { tp, name } => {
            let ob = put(ob, lit("operator \"\""))?;
            let ob = put(ob, name)?;
            o_tparams(cx, n, tp, ob)
        }
        SNode::Guard { tp, thread, scope } => {
            let ob = put(ob, if thread { lit("`local static thread guard'") } else { lit("`local static guard'") })?;
            if scope > 0 {
                let ob = put(ob, lit("{"))?;
                let ob = put(ob, dec(scope))?;
                put(ob, lit("}"))
            } else {
                Ok(ob)
            }
        }
        SNode::Conv { tp, target } => {
            let ob = put(ob, lit("operator"))?;
            let ob = o_tparams(cx, n, tp, ob)?;
            let ob = put(ob, lit(" "))?;
            o_child_opt(cx, n, target, ob)
        }
        SNode::Structor { tp, class, dtor } => {
            let ob = put_if(dtor, ob, lit("~"))?;
            let ob = o_child_opt(cx, n, class, ob)?;
            o_tparams(cx, n, tp, ob)
        }
        SNode::Rtti { tp, nv, vbp, vbt, fl } => {
            let ob = put(ob, lit("`RTTI Base Class Descriptor at ("))?;
            let ob = put(ob, dec(nv))?;
            let ob = put(ob, lit(", "))?;
            let ob = put(ob, dec(vbp))?;
            let ob = put(ob, lit(", "))?;
            let ob = put(ob, dec(vbt))?;
            let ob = put(ob, lit(", "))?;
            let ob = put(ob, dec(fl))?;
            put(ob, lit(")'"))
        }
        _ => Err(ErrK::Stuck),
    }
}

// ---- types print in two halves, around the name they declare

fn o_sig_acc(cx: Cx, f: SFunc, ob: Seq<char>) -> OR {
    let acc = !fl_has(cx.flags, F_ACCESS) && !fl_has(cx.flags, F_NAMEONLY);
    let ob = put_if(acc && f.class & FC_PUBLIC == FC_PUBLIC, ob, lit("public: "))?;
    let ob = put_if(acc && f.class & FC_PROTECTED == FC_PROTECTED, ob, lit("protected: "))?;
    put_if(acc && f.class & FC_PRIVATE == FC_PRIVATE, ob, lit("private: "))
}

fn o_sig_mem(cx: Cx, f: SFunc, ob: Seq<char>) -> OR {
    let mem = !fl_has(cx.flags, F_MEMBER) && !fl_has(cx.flags, F_NAMEONLY);
    let ob = put_if(mem && f.class & FC_GLOBAL != FC_GLOBAL && f.class & FC_STATIC == FC_STATIC, ob, lit("static "))?;
    let ob = put_if(mem && f.class & FC_VIRTUAL == FC_VIRTUAL, ob, lit("virtual "))?;
    put_if(mem && f.class & FC_EXTERNC == FC_EXTERNC, ob, lit("extern \"C\" "))
}

fn o_sig_cc(cx: Cx, f: SFunc, is_ptr: bool, ob: Seq<char>) -> OR {
    match f.cc {
        Some(cc) => {
            if !is_ptr && !fl_has(cx.flags, F_CC) && !fl_has(cx.flags, F_MSKW) && !fl_has(cx.flags, F_NAMEONLY) {
                o_cc(cx.flags, cc, ob)
            } else {
                Ok(ob)
            }
        }
        None => Ok(ob),
    }
}

#[dec(nrank(cx.nodes, n), 9)]
fn sig_ret(cx: Cx, n: SNode, f: SFunc, is_ptr: bool, ob: Seq<char>) -> OR {
    match f.ret {
        Some(h) => {
            if !fl_has(cx.flags, F_RETURN) && (is_ptr || !fl_has(cx.flags, F_NAMEONLY)) {
                let ob = pre_child(cx, n, h, ob)?;
                put(ob, lit(" "))
            } else {
                Ok(ob)
            }
        }
        None => Ok(ob),
    }
}

#[dec(nrank(cx.nodes, n), 10)]
fn sig_pre(cx: Cx, n: SNode, f: SFunc, is_ptr: bool, ob: Seq<char>) -> OR {
    let ob = o_sig_acc(cx, f, ob)?;
    let ob = o_sig_mem(cx, f, ob)?;
    let ob = sig_ret(cx, n, f, is_ptr, ob)?;
    o_sig_cc(cx, f, is_ptr, ob)
}

#[dec(nrank(cx.nodes, n), 10)]
fn sig_params(cx: Cx, n: SNode, f: SFunc, is_ptr: bool, ob: Seq<char>) -> OR {
    let name_only = fl_has(cx.flags, F_NAMEONLY);
    if (is_ptr || !name_only) && f.class & FC_NOPARAMS != FC_NOPARAMS {
        let ob = put(ob, lit("("))?;
        let ob = (match f.params {
            Some(h) => o_child(cx, n, h, ob),
            None => put(ob, lit("void")),
        })?;
        if f.variadic {
            let ob = put_if(ob.len() > 0 && ob[ob.len() as int - 1] != '(', ob, lit(", "))?;
            let ob = put(ob, lit("..."))?;
            put(ob, lit(")"))
        } else {
            put(ob, lit(")"))
        }
    } else {
        Ok(ob)
    }
}

fn o_sig_cv(cx: Cx, f: SFunc, ob: Seq<char>) -> OR {
    let this = !fl_has(cx.flags, F_THIS) && !fl_has(cx.flags, F_NAMEONLY);
    let ob = put_if(this && f.quals & Q_CONST == Q_CONST, ob, lit(" const"))?;
    put_if(this && f.quals & Q_VOLATILE == Q_VOLATILE, ob, lit(" volatile"))
}

fn o_sig_ms(cx: Cx, f: SFunc, ob: Seq<char>) -> OR {
    let und = fl_has(cx.flags, F_UNDERSCORE);
    let kw = !fl_has(cx.flags, F_THIS) && !fl_has(cx.flags, F_NAMEONLY) && !fl_has(cx.flags, F_MSKW);
    let ob = put_if(kw && f.quals & Q_RESTRICT == Q_RESTRICT, ob, if und { lit(" restrict") } else { lit(" __restrict") })?;
    put_if(kw && f.quals & Q_UNALIGNED == Q_UNALIGNED, ob, if und { lit(" unaligned") } else { lit(" __unaligned") })
}

fn o_sig_tail(cx: Cx, f: SFunc, is_ptr: bool, ob: Seq<char>) -> OR {
    let name_only = fl_has(cx.flags, F_NAMEONLY);
    let ob = put_if(f.noexc && (is_ptr || !name_only), ob, lit(" noexcept"))?;
    match f.refq {
        Some(q) => put_if(!fl_has(cx.flags, F_THIS) && !name_only, ob, match q {
            FunctionRefQualifier::Reference => lit(" &"),
            FunctionRefQualifier::RValueReference => lit(" &&"),
        }),
        None => Ok(ob),
    }
}

#[dec(nrank(cx.nodes, n), 15)]
fn sig_post(cx: Cx, n: SNode, f: SFunc, is_ptr: bool, ob: Seq<char>) -> OR {
    let name_only = fl_has(cx.flags, F_NAMEONLY);
    let ob = sig_params(cx, n, f, is_ptr, ob)?;
    let ob = o_sig_cv(cx, f, ob)?;
    let ob = o_sig_ms(cx, f, ob)?;
    let ob = o_sig_tail(cx, f, is_ptr, ob)?;
    match f.ret {
        Some(h) => if !fl_has(cx.flags, F_RETURN) && (is_ptr || !name_only) { post_child(cx, n, h, ob) } else { Ok(ob) },
        None => Ok(ob),
    }
}

#[dec(nrank(cx.nodes, n), 20)]
fn thunk_pre(cx: Cx, n: SNode, f: SFunc, is_ptr: bool, ob: Seq<char>) -> OR {
    let ob = put_if(!fl_has(cx.flags, F_NAMEONLY), ob, lit("[thunk]: "))?;
    sig_pre(cx, n, f, is_ptr, ob)
}

#[dec(nrank(cx.nodes, n), 20)]
fn thunk_post(cx: Cx, n: SNode, f: SFunc, so: int, vbp: int, vbo: int, vtd: int, is_ptr: bool, ob: Seq<char>) -> OR {
    let ob = (if f.class & FC_STA == FC_STA {
        let ob = put(ob, lit("`adjustor{"))?;
        let ob = put(ob, dec(so))?;
        put(ob, lit("}'"))
    } else if f.class & FC_VTA == FC_VTA {
        if f.class & FC_VTAEX == FC_VTAEX {
            let ob = put(ob, lit("`vtordispex{"))?;
            let ob = put(ob, dec(vbp))?;
            let ob = put(ob, lit(", "))?;
            let ob = put(ob, dec(vbo))?;
            let ob = put(ob, lit(", "))?;
            let ob = put(ob, dec(vtd))?;
            let ob = put(ob, lit(", "))?;
            let ob = put(ob, dec(so))?;
            put(ob, lit("}'"))
        } else {
            let ob = put(ob, lit("`vtordisp{"))?;
            let ob = put(ob, dec(vtd))?;
            let ob = put(ob, lit(", "))?;
            let ob = put(ob, dec(so))?;
            put(ob, lit("}'"))
        }
    } else {
        Ok(ob)
    })?;
    sig_post(cx, n, f, is_ptr, ob)
}

// the halves of a function type, given the node that holds it
#[dec(nrank(cx.nodes, n), 30)]
fn fn_pre(cx: Cx, n: SNode, is_ptr: bool, ob: Seq<char>) -> OR {
    match n {
        SNode::Sig { f } => sig_pre(cx, n, f, is_ptr, ob),
        SNode::Thunk { f, so, vbp, vbo, vtd } => thunk_pre(cx, SNode::Sig { f: f }, f, is_ptr, ob),
        _ => Err(ErrK::Stuck),
    }
}

#[dec(nrank(cx.nodes, n), 30)]
fn fn_post(cx: Cx, n: SNode, is_ptr: bool, ob: Seq<char>) -> OR {
    match n {
        SNode::Sig { f } => sig_post(cx, n, f, is_ptr, ob),
        SNode::Thunk { f, so, vbp, vbo, vtd } => thunk_post(cx, SNode::Sig { f: f }, f, so, vbp, vbo, vtd, is_ptr, ob),
        _ => Err(ErrK::Stuck),
    }
}

fn sfunc_of(n: SNode) -> Option<SFunc> {
    match n {
        SNode::Sig { f } => Some(f),
        SNode::Thunk { f, so, vbp, vbo, vtd } => Some(f),
        _ => None,
    }
}

fn aff_text(a: PointerAffinity) -> Seq<char> {
    match a {
        PointerAffinity::Pointer => lit("*"),
        PointerAffinity::Reference => lit("&"),
        PointerAffinity::RValueReference => lit("&&"),
    }
}

fn o_unaligned(cx: Cx, quals: u8, ob: Seq<char>) -> OR {
    put_if(
        !fl_has(cx.flags, F_MSKW) && quals & Q_UNALIGNED == Q_UNALIGNED,
        ob,
        if fl_has(cx.flags, F_UNDERSCORE) { lit("unaligned ") } else { lit("__unaligned ") },
    )
}

// what opens around a pointer's declarator
fn o_ptr_open(cx: Cx, p: SNode, ob: Seq<char>) -> OR {
    match p {
        SNode::Arr { .. } => put(ob, lit("(")),
        _ => match sfunc_of(p) {
            Some(f) => {
                let ob = put(ob, lit("("))?;
                match f.cc {
                    Some(cc) => {
                        if !fl_has(cx.flags, F_CC) && !fl_has(cx.flags, F_MSKW) {
                            let ob = o_cc(cx.flags, cc, ob)?;
                            put(ob, lit(" "))
                        } else {
                            Ok(ob)
                        }
                    }
                    None => Ok(ob),
                }
            }
            None => Ok(ob),
        },
    }
}

fn o_ptr_tail(cx: Cx, quals: u8, aff: Option<PointerAffinity>, ob: Seq<char>) -> OR {
    match aff {
        Some(a) => {
            let ob = put(ob, aff_text(a))?;
            o_quals(cx.flags, quals, false, false, ob)
        }
        None => Err(ErrK::Stuck),
    }
}

#[dec(nrank(cx.nodes, n), 9)]
fn ptr_parent(cx: Cx, n: SNode, parent: Option<int>, ob: Seq<char>) -> OR {
    match parent {
        Some(h) => {
            let ob = o_child(cx, n, h, ob)?;
            put(ob, lit("::"))
        }
        None => Ok(ob),
    }
}

#[dec(nrank(cx.nodes, n), 10)]
fn ptr_pre(cx: Cx, n: SNode, quals: u8, aff: Option<PointerAffinity>, parent: Option<int>, pointee: int, ob: Seq<char>) -> OR {
    if !desc(cx.nodes, n, pointee) {
        Err(ErrK::Stuck)
    } else {
        let p = cx.nodes[pointee];
        let ob = (if is_sig(p) { fn_pre(cx, p, true, ob) } else { o_pre(cx, p, ob) })?;
        let ob = space_if_necessary(ob)?;
        let ob = o_unaligned(cx, quals, ob)?;
        let ob = o_ptr_open(cx, p, ob)?;
        let ob = ptr_parent(cx, n, parent, ob)?;
        o_ptr_tail(cx, quals, aff, ob)
    }
}

#[dec(nrank(cx.nodes, n), 10)]
fn ptr_post(cx: Cx, n: SNode, pointee: int, ob: Seq<char>) -> OR {
    if !desc(cx.nodes, n, pointee) {
        Err(ErrK::Stuck)
    } else {
        let p = cx.nodes[pointee];
        match p {
            SNode::Arr { .. } => {
                let ob = put(ob, lit(")"))?;
                o_post(cx, p, ob)
            }
            _ => if is_sig(p) {
                let ob = put(ob, lit(")"))?;
                fn_post(cx, p, true, ob)
            } else {
                o_post(cx, p, ob)
            },
        }
    }
}

fn o_int(n: SNode, ob: Seq<char>) -> OR {
    match n {
        SNode::Int { value, neg } => {
            let ob = put(ob, if neg { lit("-") } else { lit("") })?;
            put(ob, dec(value))
        }
        _ => Err(ErrK::Stuck),
    }
}

// an array dimension of 0 means "unspecified" and is left blank
fn o_dim(cx: Cx, h: int, ob: Seq<char>) -> OR {
    match cx.nodes[h] {
        SNode::Int { value, neg } => if value != 0 { o_int(cx.nodes[h], ob) } else { Ok(ob) },
        _ => Err(ErrK::Stuck),
    }
}

#[dec(ds.len() - i)]
fn o_dims_rest(cx: Cx, ds: Seq<int>, i: int, ob: Seq<char>) -> OR {
    if i < 0 || i >= ds.len() as int {
        Ok(ob)
    } else {
        let ob = put(ob, lit("]["))?;
        let ob = o_dim(cx, ds[i], ob)?;
        o_dims_rest(cx, ds, i + 1, ob)
    }
}

fn o_dims(cx: Cx, dims: int, ob: Seq<char>) -> OR {
    let ds = arr_of(cx.nodes[dims]);
    if ds.len() == 0 {
        Ok(ob)
    } else {
        let ob = o_dim(cx, ds[0], ob)?;
        o_dims_rest(cx, ds, 1, ob)
    }
}

#[dec(nrank(cx.nodes, n), 40)]
fn o_pre(cx: Cx, n: SNode, ob: Seq<char>) -> OR {
    match n {
        SNode::Prim { quals, kind } => {
            let ob = put(ob, prim_text(kind))?;
            o_quals(cx.flags, quals, true, false, ob)
        }
        SNode::Sig { f } => fn_pre(cx, n, false, ob),
        SNode::Thunk { f, so, vbp, vbo, vtd } => fn_pre(cx, n, false, ob),
        SNode::Ptr { quals, aff, parent, pointee } => ptr_pre(cx, n, quals, aff, parent, pointee, ob),
        SNode::Tag { quals, name, tag } => {
            let ob = (if !fl_has(cx.flags, F_TAG) && !fl_has(cx.flags, F_NAMEONLY) {
                let ob = put(ob, tag_text(tag))?;
                put(ob, lit(" "))
            } else {
                Ok(ob)
            })?;
            let ob = o_child(cx, n, name, ob)?;
            o_quals(cx.flags, quals, true, false, ob)
        }
        SNode::Arr { quals, dims, elem } => {
            let ob = pre_child(cx, n, elem, ob)?;
            o_quals(cx.flags, quals, true, false, ob)
        }
        SNode::Custom { quals, ident } => o_child(cx, n, ident, ob),
        _ => Err(ErrK::Stuck),
    }
}

#[dec(nrank(cx.nodes, n), 40)]
fn o_post(cx: Cx, n: SNode, ob: Seq<char>) -> OR {
    match n {
        SNode::Sig { f } => fn_post(cx, n, false, ob),
        SNode::Thunk { f, so, vbp, vbo, vtd } => fn_post(cx, n, false, ob),
        SNode::Ptr { quals, aff, parent, pointee } => ptr_post(cx, n, pointee, ob),
        SNode::Arr { quals, dims, elem } => {
            let ob = put(ob, lit("["))?;
            let ob = o_dims(cx, dims, ob)?;
            let ob = put(ob, lit("]"))?;
            post_child(cx, n, elem, ob)
        }
        _ => Ok(ob),
    }
}

#[dec(nrank(cx.nodes, n), 50)]
fn o_type(cx: Cx, n: SNode, ob: Seq<char>) -> OR {
    let ob = o_pre(cx, n, ob)?;
    o_post(cx, n, ob)
}

// ---- symbols

fn sc_access(sc: Option<StorageClass>) -> Option<Seq<char>> {
    match sc {
        Some(StorageClass::PrivateStatic) => Some(lit("private")),
        Some(StorageClass::PublicStatic) => Some(lit("public")),
        Some(StorageClass::ProtectedStatic) => Some(lit("protected")),
        _ => None,
    }
}

#[dec(nrank(cx.nodes, n), 20)]
fn o_var(cx: Cx, n: SNode, name: Option<SVarName>, sc: Option<StorageClass>, ty: Option<int>, ob: Seq<char>) -> OR {
    let name_only = fl_has(cx.flags, F_NAMEONLY);
    let ob = (match sc_access(sc) {
        Some(t) => {
            let ob = (if !fl_has(cx.flags, F_ACCESS) && !name_only {
                let ob = put(ob, t)?;
                put(ob, lit(": "))
            } else {
                Ok(ob)
            })?;
            put_if(!fl_has(cx.flags, F_MEMBER) && !name_only, ob, lit("static "))
        }
        None => Ok(ob),
    })?;
    match name {
        Some(SVarName::Q(q)) => {
            if !fl_has(cx.flags, F_VARTYPE) && !name_only {
                match ty {
                    Some(t) => {
                        let ob = pre_child(cx, n, t, ob)?;
                        let ob = space_if_necessary(ob)?;
                        let ob = o_child(cx, n, q, ob)?;
                        post_child(cx, n, t, ob)
                    }
                    None => o_child(cx, n, q, ob),
                }
            } else {
                o_child(cx, n, q, ob)
            }
        }
        Some(SVarName::TypeDescriptor) => {
            let ob = o_child_opt(cx, n, ty, ob)?;
            if !name_only {
                let ob = space_if_necessary(ob)?;
                put(ob, lit("`RTTI Type Descriptor Name'"))
            } else {
                Ok(ob)
            }
        }
        None => Err(ErrK::Stuck),
    }
}

#[dec(nrank(cx.nodes, n), 30)]
fn o_symbol(cx: Cx, n: SNode, ob: Seq<char>) -> OR {
    match n {
        SNode::Md5 { name } => o_child(cx, n, name, ob),
        SNode::Table { name, target, quals } => {
            let ob = (if !fl_has(cx.flags, F_NAMEONLY) { o_quals(cx.flags, quals, false, true, ob) } else { Ok(ob) })?;
            let ob = o_child(cx, n, name, ob)?;
            match target {
                Some(t) => {
                    let ob = put(ob, lit("{for `"))?;
                    let ob = o_child(cx, n, t, ob)?;
                    put(ob, lit("'}"))
                }
                None => Ok(ob),
            }
        }
        SNode::GuardVar { name } => o_child(cx, n, name, ob),
        SNode::Str { name, text, trunc, ch } => {
            let ob = put(ob, str_prefix(ch))?;
            let ob = put(ob, text)?;
            let ob = put(ob, lit("\""))?;
            put(ob, if trunc { lit("...") } else { lit("") })
        }
        SNode::Var { name, sc, ty } => o_var(cx, n, name, sc, ty, ob),
        SNode::Func { name, sig } => {
            let ob = pre_child(cx, n, sig, ob)?;
            let ob = space_if_necessary(ob)?;
            let ob = o_child_opt(cx, n, name, ob)?;
            post_child(cx, n, sig, ob)
        }
        _ => Err(ErrK::Stuck),
    }
}

// ---- template arguments that name a symbol

#[dec(offs.len() - i)]
fn o_offs_rest(offs: Seq<int>, i: int, ob: Seq<char>) -> OR {
    if i < 0 || i >= offs.len() as int {
        Ok(ob)
    } else {
        let ob = put(ob, lit(", "))?;
        let ob = put(ob, dec(offs[i]))?;
        o_offs_rest(offs, i + 1, ob)
    }
}

#[dec(nrank(cx.nodes, n), 20)]
fn o_tref(cx: Cx, n: SNode, symbol: Option<int>, offs: Seq<int>, aff: Option<PointerAffinity>, ob: Seq<char>) -> OR {
    let many = offs.len() > 0;
    let ob = (if many { put(ob, lit("{")) } else { put_if(aff == Some(PointerAffinity::Pointer), ob, lit("&")) })?;
    let ob = (match symbol {
        Some(h) => {
            let ob = o_child(cx, n, h, ob)?;
            put_if(many, ob, lit(", "))
        }
        None => Ok(ob),
    })?;
    if many {
        let ob = put(ob, dec(offs[0]))?;
        let ob = o_offs_rest(offs, 1, ob)?;
        put(ob, lit("}"))
    } else {
        Ok(ob)
    }
}

#[dec(nrank(cx.nodes, n), 60)]
fn o_node(cx: Cx, n: SNode, ob: Seq<char>) -> OR {
    match n {
        SNode::Array { nodes } => o_array(cx, n, lit(", "), ob),
        SNode::QName { comps } => o_qname(cx, n, comps, ob),
        SNode::TRef { symbol, offs, aff } => o_tref(cx, n, symbol, offs, aff, ob),
        SNode::Int { value, neg } => o_int(n, ob),
        _ => if is_type(n) { o_type(cx, n, ob) } else if is_ident(n) { o_ident(cx, n, ob) } else { o_symbol(cx, n, ob) },
    }
}
