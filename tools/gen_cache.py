# Writes contracts/cache_gen.vc: the views of the 26 node types and of the storage.
K = [ # resolver, spec pattern, view of the node
("PrimitiveType","Prim","SNode::Prim { quals: self.quals.b, kind: self.prim_kind }"),
("FunctionSignature","Sig","SNode::Sig { f: sf(self) }"),
("ThunkSignature","Thunk","SNode::Thunk { f: sf(self.function_node), so: self.this_adjust.static_offset as int, vbp: self.this_adjust.vbptr_offset as int, vbo: self.this_adjust.vboffset_offset as int, vtd: self.this_adjust.vtor_disp_offset as int }"),
("PointerType","Ptr","SNode::Ptr { quals: self.quals.b, aff: self.affinity, parent: ho(self.class_parent), pointee: hi(self.pointee) }"),
("TagType","Tag","SNode::Tag { quals: self.quals.b, name: hi(self.qualified_name), tag: self.tag }"),
("ArrayType","Arr","SNode::Arr { quals: self.quals.b, dims: hi(self.dimensions), elem: hi(self.element_type) }"),
("CustomType","Custom","SNode::Custom { quals: self.quals.b, ident: hi(self.identifier) }"),
("VcallThunkIdentifier","Vcall","SNode::Vcall { tp: tpo(self.template_params), off: self.offset_in_vtable as int }"),
("DynamicStructorIdentifier","DynStruct","SNode::DynStruct { tp: tpo(self.template_params), is_var: self.identifier is Variable, target: match self.identifier { crate::nodes::derived::DynamicStructorIdentifier::Variable(h) => hi(h), crate::nodes::derived::DynamicStructorIdentifier::Name(h) => hi(h) }, dtor: self.is_destructor }"),
("NamedIdentifier","Named","SNode::Named { tp: tpo(self.template_params), name: self.name@, styled: so(self.styled_name) }"),
("IntrinsicFunctionIdentifier","Intrinsic","SNode::Intrinsic { tp: tpo(self.template_params), op: self.operator }"),
("LiteralOperatorIdentifier","LitOp","SNode::LitOp { tp: tpo(self.template_params), name: self.name@ }"),
("LocalStaticGuardIdentifier","Guard","SNode::Guard { tp: tpo(self.template_params), thread: self.is_thread, scope: self.scope_index as int }"),
("ConversionOperatorIdentifier","Conv","SNode::Conv { tp: tpo(self.template_params), target: ho(self.target_type) }"),
("StructorIdentifier","Structor","SNode::Structor { tp: tpo(self.template_params), class: ho(self.class), dtor: self.is_destructor }"),
("RttiBaseClassDescriptor","Rtti","SNode::Rtti { tp: tpo(self.template_params), nv: self.nv_offset as int, vbp: self.vbptr_offset as int, vbt: self.vbtable_offset as int, fl: self.flags as int }"),
("NodeArray","Array","SNode::Array { nodes: hs(self.nodes@) }"),
("QualifiedName","QName","SNode::QName { comps: hi(self.components) }"),
("TemplateParameterReference","TRef","SNode::TRef { symbol: ho(self.symbol), offs: is64(self.thunk_offsets.v()), aff: self.affinity }"),
("IntegerLiteral","Int","SNode::Int { value: self.value as int, neg: self.is_negative }"),
("Md5Symbol","Md5","SNode::Md5 { name: hi(self.name) }"),
("SpecialTableSymbol","Table","SNode::Table { name: hi(self.name), target: ho(self.target_name), quals: self.quals.b }"),
("LocalStaticGuardVariable","GuardVar","SNode::GuardVar { name: hi(self.name) }"),
("EncodedStringLiteral","Str","SNode::Str { name: ho(self.name), text: self.decoded_string@, trunc: self.is_truncated, ch: self.char }"),
("VariableSymbol","Var","SNode::Var { name: svn(self.name), sc: self.sc, ty: ho(self.r#type) }"),
("FunctionSymbol","Func","SNode::Func { name: ho(self.name), sig: hi(self.signature) }"),
]
GEN={"NamedIdentifier","LiteralOperatorIdentifier","NodeArray","EncodedStringLiteral"}
I={"INode":("Node","true"),"ITypeNode":("TypeNode","is_type(n)"),"ISignatureNode":("SignatureNode","is_sig(n)"),"IIdentifierNode":("IdentifierNode","is_ident(n)"),"ISymbolNode":("SymbolNode","is_symbol(n)")}
o=[""]
def fn(i,body): o.append(f"\n@fn {i}\n{body}")
for r,p,v in K:
    fn(f"cache::{r}Node::NodeToResolver#",f"@extra\n    open spec fn nv(self) -> SNode {{ {v} }}")
    fn(f"cache::{r}::UnwrapStorage<,>#",f"""@extra
    open spec fn matches(n: SNode) -> bool {{ n is {p} }}
    open spec fn is_view(n: SNode, o: Self::Output) -> bool {{ n == (*o).nv() }}
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool {{ n == (*o).nv() && n2 == (*final(o)).nv() }}""")
    fn(f"cache::{r}::UnwrapStorage<,>::try_unwrap","")
    fn(f"cache::{r}::UnwrapStorage<,>::try_unwrap_mut","")
for r,(n,m) in I.items():
    fn(f"cache::{r}::UnwrapStorage<,>#",f"""@extra
    open spec fn matches(n: SNode) -> bool {{ {m} }}
    open spec fn is_view(n: SNode, o: Self::Output) -> bool {{ n == o.nv() }}
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool {{ n == o.mv() && n2 == o.mfv() }}""")
    fn(f"cache::{r}::UnwrapStorage<,>::try_unwrap","@entry\n  broadcast use group_std;")
    fn(f"cache::{r}::UnwrapStorage<,>::try_unwrap_mut","@entry\n  broadcast use group_std;")
fn("cache::","@extra\nimpl<'alloc> NodeStorage<'alloc> {\n    pub open spec fn v(self) -> SNode { match self {\n"+"".join(f"        NodeStorage::{r}(x) => (*x).nv(),\n" for r,_,_ in K)+"    } }\n}\nimpl<'alloc> NodeCache<'alloc> {\n    pub open spec fn v(self) -> Seq<SNode> { Seq::new(self.storage@.len(), |i: int| self.storage@[i].v()) }\n}")
subs={"TypeNode":[("PrimitiveType",0),("Signature","S"),("PointerType",0),("TagType",0),("ArrayType",0),("CustomType",0)]}
ty=[("PrimitiveType",0),("Signature",1),("PointerType",0),("TagType",0),("ArrayType",0),("CustomType",0)]
sg=[("FunctionSignature",0),("ThunkSignature",0)]
idn=[(r,0) for r,_,_ in K[7:16]]
sy=[(r,0) for r,_,_ in K[20:]]
nd=[("Type",1),("Identifier",1),("NodeArray",0),("QualifiedName",0),("TemplateParameterReference",0),("IntegerLiteral",0),("Symbol",1)]
ex="@extra\n"
for n,vs in [("Node",nd),("TypeNode",ty),("SignatureNode",sg),("IdentifierNode",idn),("SymbolNode",sy)]:
    ex+=f"impl<'storage, 'alloc: 'storage> {n}Const<'storage, 'alloc> {{\n    pub open spec fn nv(self) -> SNode {{ match self {{ "+" ".join(f"{n}::{v}(x) => "+("x.nv()," if s else "(*x).nv(),") for v,s in vs)+" } }\n}\n"
    ex+=f"impl<'storage, 'alloc: 'storage> {n}Mut<'storage, 'alloc> {{\n    pub open spec fn mv(self) -> SNode {{ match self {{ "+" ".join(f"{n}::{v}(x) => "+("x.mv()," if s else "(*x).nv(),") for v,s in vs)+" } }\n"
    ex+=f"    #[verifier::prophetic]\n    pub open spec fn mfv(self) -> SNode {{ match self {{ "+" ".join(f"{n}::{v}(x) => "+("x.mfv()," if s else "(*final(x)).nv(),") for v,s in vs)+" } }\n}\n"
fn("nodes::intermediate::",ex)
fn("cache::NodeToResolver#","@extra\n    spec fn nv(self) -> SNode;")
fn("cache::UnwrapStorage#","""@extra
    spec fn matches(n: SNode) -> bool;
    spec fn is_view(n: SNode, o: Self::Output) -> bool;
    #[verifier::prophetic]
    spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool;""")
fn("cache::UnwrapStorage::try_unwrap","""@spec
  ensures r.is_some() == Self::matches(this.v()), r matches Some(o) ==> Self::is_view(this.v(), o)""")
fn("cache::UnwrapStorage::try_unwrap_mut","""@spec
  ensures
    r.is_some() == Self::matches(old(this).v()),
    r matches Some(o) ==> Self::is_mut_view(old(this).v(), final(this).v(), o),
    r is None ==> final(this).v() == old(this).v()""")
KP={r:f"n is {p}" for r,p,_ in K}
for r,(n,m) in I.items(): KP[r]=m
DC=[("INode",t) for t in ["ITypeNode","IIdentifierNode","NodeArray","QualifiedName","TemplateParameterReference","IntegerLiteral","ISymbolNode","ISignatureNode","FunctionSignature","ThunkSignature"]]
DC+=[("ITypeNode",t) for t in ["PrimitiveType","ISignatureNode","PointerType","TagType","ArrayType","CustomType"]]
DC+=[("ISignatureNode",t) for t in ["FunctionSignature","ThunkSignature"]]
DC+=[("IIdentifierNode",r) for r,_,_ in K[7:16]]
DC+=[("ISymbolNode",r) for r,_,_ in K[20:]]
fn("cache::Downcast#","""@extra
    spec fn hd(self) -> int;
    spec fn from_k(n: SNode) -> bool;
    spec fn to_k(n: SNode) -> bool;""")
fn("cache::Downcast::downcast","""@spec
  requires 0 <= self.hd() < cache.v().len(), Self::from_k(cache.v()[self.hd()])
  ensures (r is Some) == Self::to_k(cache.v()[self.hd()]), r matches Some(x) ==> hi(x) == self.hd()""")
fn("cache::NodeHandle::downcast","""@spec
  requires 0 <= self.hd() < cache.v().len(), Self::from_k(cache.v()[self.hd()])
  ensures (r is Some) == Self::to_k(cache.v()[self.hd()]), r matches Some(x) ==> hi(x) == self.hd()""")
for a,b in DC:
    fn(f"cache::NodeHandle<{a}>::Downcast<{b}>#",f"""@extra
    open spec fn hd(self) -> int {{ hi(self) }}
    open spec fn from_k(n: SNode) -> bool {{ {KP[a]} }}
    open spec fn to_k(n: SNode) -> bool {{ {KP[b]} }}""")
    fn(f"cache::NodeHandle<{a}>::Downcast<{b}>::downcast","")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","contracts","cache_gen.vc"),"w").write("\n".join(o)+"\n")
