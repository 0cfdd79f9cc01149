// Abstract syntax and shared vocabulary of the contracts.
//
// This directory is written in the subset of Rust that is both compilable (the
// executable oracle in /verif/oracle compiles it as is) and translatable to Verus
// `spec fn`s (the extractor does that on every run).

// ---- output flags (the public `Flags` bits)
const F_CC: u16 = 1;
const F_TAG: u16 = 2;
const F_ACCESS: u16 = 4;
const F_MEMBER: u16 = 8;
const F_RETURN: u16 = 16;
const F_VARTYPE: u16 = 32;
const F_THIS: u16 = 64;
const F_UNDERSCORE: u16 = 128;
const F_MSKW: u16 = 256;
const F_NAMEONLY: u16 = 512;

// ---- qualifiers
const Q_CONST: u8 = 1;
const Q_VOLATILE: u8 = 2;
const Q_UNALIGNED: u8 = 16;
const Q_RESTRICT: u8 = 32;
const Q_PTR64: u8 = 64;

// ---- function classes
const FC_PUBLIC: u16 = 1;
const FC_PROTECTED: u16 = 2;
const FC_PRIVATE: u16 = 4;
const FC_GLOBAL: u16 = 8;
const FC_STATIC: u16 = 16;
const FC_VIRTUAL: u16 = 32;
const FC_FAR: u16 = 64;
const FC_EXTERNC: u16 = 128;
const FC_NOPARAMS: u16 = 256;
const FC_VTA: u16 = 512;
const FC_VTAEX: u16 = 1024;
const FC_STA: u16 = 2048;

// ---- which names a production memorizes
const NBB_TEMPLATE: u8 = 1;
const NBB_SIMPLE: u8 = 2;

// ---- resource limits
const MAX_NODES: int = 2048;
const MAX_BYTES: int = 1048576;
const MAX_NESTING: int = 256;

struct SFunc {
    quals: u8,
    cc: Option<CallingConv>,
    class: u16,
    refq: Option<FunctionRefQualifier>,
    ret: Option<int>,
    variadic: bool,
    params: Option<int>,
    noexc: bool,
}

enum SVarName {
    Q(int),
    TypeDescriptor,
}

// A node of the syntax tree. Children are indices into the node table.
enum SNode {
    Prim { quals: u8, kind: PrimitiveKind },
    Sig { f: SFunc },
    Thunk { f: SFunc, so: int, vbp: int, vbo: int, vtd: int },
    Ptr { quals: u8, aff: Option<PointerAffinity>, parent: Option<int>, pointee: int },
    Tag { quals: u8, name: int, tag: TagKind },
    Arr { quals: u8, dims: int, elem: int },
    Custom { quals: u8, ident: int },

    Vcall { tp: Option<int>, off: int },
    DynStruct { tp: Option<int>, is_var: bool, target: int, dtor: bool },
    Named { tp: Option<int>, name: Seq<char>, styled: Option<Seq<char>> },
    Intrinsic { tp: Option<int>, op: Option<IntrinsicFunctionKind> },
    LitOp { tp: Option<int>, name: Seq<char> },
    Guard { tp: Option<int>, thread: bool, scope: int },
    Conv { tp: Option<int>, target: Option<int> },
    Structor { tp: Option<int>, class: Option<int>, dtor: bool },
    Rtti { tp: Option<int>, nv: int, vbp: int, vbt: int, fl: int },

    Array { nodes: Seq<int> },
    QName { comps: int },
    TRef { symbol: Option<int>, offs: Seq<int>, aff: Option<PointerAffinity> },
    Int { value: int, neg: bool },

    Md5 { name: int },
    Table { name: int, target: Option<int>, quals: u8 },
    GuardVar { name: int },
    Str { name: Option<int>, text: Seq<char>, trunc: bool, ch: CharKind },
    Var { name: Option<SVarName>, sc: Option<StorageClass>, ty: Option<int> },
    Func { name: Option<int>, sig: int },
}

enum ErrK {
    InvalidAnonymousNamespaceName,
    InvalidArrayType,
    InvalidBackRef,
    InvalidCallingConvention,
    InvalidCharLiteral,
    InvalidClassType,
    InvalidCustomType,
    InvalidDeclarator,
    InvalidEncodedSymbol,
    InvalidFullyQualifiedSymbolName,
    InvalidFunctionClass,
    InvalidFunctionEncoding,
    InvalidFunctionIdentifierCode,
    InvalidFunctionParameterList,
    InvalidFunctionType,
    InvalidInitFiniStub,
    InvalidIntrinsicFunctionCode,
    InvalidLocallyScopedNamePiece,
    InvalidLocalStaticGuard,
    InvalidMd5Name,
    InvalidMemberPointerType,
    InvalidNameScopeChain,
    InvalidNumber,
    InvalidPointerCVQualifiers,
    InvalidPointerType,
    InvalidPrimitiveType,
    InvalidQualifiers,
    InvalidRttiBaseClassDescriptorNode,
    InvalidSigned,
    InvalidSimpleString,
    InvalidSpecialIntrinsic,
    InvalidSpecialTableSymbolNode,
    InvalidStringLiteral,
    InvalidTagUniqueName,
    InvalidTemplateInstantiationName,
    InvalidTemplateParameterList,
    InvalidThrowSpecification,
    InvalidType,
    InvalidTypeinfoName,
    InvalidUnsigned,
    InvalidUntypedVariable,
    InvalidVariableStorageClass,
    InvalidVcallThunkNode,
    Eof,
    Oom,
    Utf8Error,
    MaliciousInput,
    Stuck,
}

// Parser state: what is left of the input, the node table, the two back-reference
// tables, and the caller's output flags (read only by the two functions that render
// text while parsing).
struct PS {
    rest: Seq<char>,
    nodes: Seq<SNode>,
    fp: Seq<int>,
    nm: Seq<int>,
    fl: u16,
}

// Rendering context.
struct Cx {
    nodes: Seq<SNode>,
    flags: u16,
}

fn is_type(n: SNode) -> bool {
    match n {
        SNode::Prim { .. } => true,
        SNode::Sig { .. } => true,
        SNode::Thunk { .. } => true,
        SNode::Ptr { .. } => true,
        SNode::Tag { .. } => true,
        SNode::Arr { .. } => true,
        SNode::Custom { .. } => true,
        _ => false,
    }
}

fn is_sig(n: SNode) -> bool {
    match n {
        SNode::Sig { .. } => true,
        SNode::Thunk { .. } => true,
        _ => false,
    }
}

fn is_ident(n: SNode) -> bool {
    match n {
        SNode::Vcall { .. } => true,
        SNode::DynStruct { .. } => true,
        SNode::Named { .. } => true,
        SNode::Intrinsic { .. } => true,
        SNode::LitOp { .. } => true,
        SNode::Guard { .. } => true,
        SNode::Conv { .. } => true,
        SNode::Structor { .. } => true,
        SNode::Rtti { .. } => true,
        _ => false,
    }
}

fn is_symbol(n: SNode) -> bool {
    match n {
        SNode::Md5 { .. } => true,
        SNode::Table { .. } => true,
        SNode::GuardVar { .. } => true,
        SNode::Str { .. } => true,
        SNode::Var { .. } => true,
        SNode::Func { .. } => true,
        _ => false,
    }
}

fn is_ptr(n: SNode) -> bool {
    match n {
        SNode::Ptr { .. } => true,
        _ => false,
    }
}

fn is_conv(n: SNode) -> bool {
    match n {
        SNode::Conv { .. } => true,
        _ => false,
    }
}

fn is_structor(n: SNode) -> bool {
    match n {
        SNode::Structor { .. } => true,
        _ => false,
    }
}

fn is_var(n: SNode) -> bool {
    match n {
        SNode::Var { .. } => true,
        _ => false,
    }
}

fn is_func(n: SNode) -> bool {
    match n {
        SNode::Func { .. } => true,
        _ => false,
    }
}

// ---- the styled text of a name is not part of the tree as the default flags see it
fn erase(n: SNode) -> SNode {
    match n {
        SNode::Named { tp, name, styled } => SNode::Named { tp: tp, name: name, styled: None },
        _ => n,
    }
}

fn norm(flags: u16, n: SNode) -> SNode {
    if flags == 0 { erase(n) } else { n }
}

// ---- characters
fn ci(c: char) -> int { c as u32 as int }
fn is_digit(c: char) -> bool { ci(c) >= 48 && ci(c) <= 57 }
fn is_upper(c: char) -> bool { ci(c) >= 65 && ci(c) <= 90 }
fn is_lower(c: char) -> bool { ci(c) >= 97 && ci(c) <= 122 }
// the mangling's own hexadecimal digits: A = 0 ... P = 15
fn is_rhex(c: char) -> bool { ci(c) >= 65 && ci(c) <= 80 }
fn rhex(c: char) -> int { ci(c) - 65 }
