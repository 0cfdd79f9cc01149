

@fn cache::PrimitiveTypeNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Prim { quals: self.quals.b, kind: self.prim_kind } }

@fn cache::PrimitiveType::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Prim }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::PrimitiveType::UnwrapStorage<,>::try_unwrap


@fn cache::PrimitiveType::UnwrapStorage<,>::try_unwrap_mut


@fn cache::FunctionSignatureNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Sig { f: sf(self) } }

@fn cache::FunctionSignature::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Sig }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::FunctionSignature::UnwrapStorage<,>::try_unwrap


@fn cache::FunctionSignature::UnwrapStorage<,>::try_unwrap_mut


@fn cache::ThunkSignatureNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Thunk { f: sf(self.function_node), so: self.this_adjust.static_offset as int, vbp: self.this_adjust.vbptr_offset as int, vbo: self.this_adjust.vboffset_offset as int, vtd: self.this_adjust.vtor_disp_offset as int } }

@fn cache::ThunkSignature::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Thunk }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::ThunkSignature::UnwrapStorage<,>::try_unwrap


@fn cache::ThunkSignature::UnwrapStorage<,>::try_unwrap_mut


@fn cache::PointerTypeNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Ptr { quals: self.quals.b, aff: self.affinity, parent: ho(self.class_parent), pointee: hi(self.pointee) } }

@fn cache::PointerType::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Ptr }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::PointerType::UnwrapStorage<,>::try_unwrap


@fn cache::PointerType::UnwrapStorage<,>::try_unwrap_mut


@fn cache::TagTypeNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Tag { quals: self.quals.b, name: hi(self.qualified_name), tag: self.tag } }

@fn cache::TagType::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Tag }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::TagType::UnwrapStorage<,>::try_unwrap


@fn cache::TagType::UnwrapStorage<,>::try_unwrap_mut


@fn cache::ArrayTypeNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Arr { quals: self.quals.b, dims: hi(self.dimensions), elem: hi(self.element_type) } }

@fn cache::ArrayType::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Arr }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::ArrayType::UnwrapStorage<,>::try_unwrap


@fn cache::ArrayType::UnwrapStorage<,>::try_unwrap_mut


@fn cache::CustomTypeNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Custom { quals: self.quals.b, ident: hi(self.identifier) } }

@fn cache::CustomType::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Custom }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::CustomType::UnwrapStorage<,>::try_unwrap


@fn cache::CustomType::UnwrapStorage<,>::try_unwrap_mut


@fn cache::VcallThunkIdentifierNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Vcall { tp: tpo(self.template_params), off: self.offset_in_vtable as int } }

@fn cache::VcallThunkIdentifier::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Vcall }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::VcallThunkIdentifier::UnwrapStorage<,>::try_unwrap


@fn cache::VcallThunkIdentifier::UnwrapStorage<,>::try_unwrap_mut


@fn cache::DynamicStructorIdentifierNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::DynStruct { tp: tpo(self.template_params), is_var: self.identifier is Variable, target: match self.identifier { crate::nodes::derived::DynamicStructorIdentifier::Variable(h) => hi(h), crate::nodes::derived::DynamicStructorIdentifier::Name(h) => hi(h) }, dtor: self.is_destructor } }

@fn cache::DynamicStructorIdentifier::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is DynStruct }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::DynamicStructorIdentifier::UnwrapStorage<,>::try_unwrap


@fn cache::DynamicStructorIdentifier::UnwrapStorage<,>::try_unwrap_mut


@fn cache::NamedIdentifierNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Named { tp: tpo(self.template_params), name: self.name@, styled: so(self.styled_name) } }

@fn cache::NamedIdentifier::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Named }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::NamedIdentifier::UnwrapStorage<,>::try_unwrap


@fn cache::NamedIdentifier::UnwrapStorage<,>::try_unwrap_mut


@fn cache::IntrinsicFunctionIdentifierNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Intrinsic { tp: tpo(self.template_params), op: self.operator } }

@fn cache::IntrinsicFunctionIdentifier::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Intrinsic }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::IntrinsicFunctionIdentifier::UnwrapStorage<,>::try_unwrap


@fn cache::IntrinsicFunctionIdentifier::UnwrapStorage<,>::try_unwrap_mut


@fn cache::LiteralOperatorIdentifierNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::LitOp { tp: tpo(self.template_params), name: self.name@ } }

@fn cache::LiteralOperatorIdentifier::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is LitOp }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::LiteralOperatorIdentifier::UnwrapStorage<,>::try_unwrap


@fn cache::LiteralOperatorIdentifier::UnwrapStorage<,>::try_unwrap_mut


@fn cache::LocalStaticGuardIdentifierNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Guard { tp: tpo(self.template_params), thread: self.is_thread, scope: self.scope_index as int } }

@fn cache::LocalStaticGuardIdentifier::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Guard }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::LocalStaticGuardIdentifier::UnwrapStorage<,>::try_unwrap


@fn cache::LocalStaticGuardIdentifier::UnwrapStorage<,>::try_unwrap_mut


@fn cache::ConversionOperatorIdentifierNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Conv { tp: tpo(self.template_params), target: ho(self.target_type) } }

@fn cache::ConversionOperatorIdentifier::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Conv }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::ConversionOperatorIdentifier::UnwrapStorage<,>::try_unwrap


@fn cache::ConversionOperatorIdentifier::UnwrapStorage<,>::try_unwrap_mut


@fn cache::StructorIdentifierNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Structor { tp: tpo(self.template_params), class: ho(self.class), dtor: self.is_destructor } }

@fn cache::StructorIdentifier::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Structor }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::StructorIdentifier::UnwrapStorage<,>::try_unwrap


@fn cache::StructorIdentifier::UnwrapStorage<,>::try_unwrap_mut


@fn cache::RttiBaseClassDescriptorNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Rtti { tp: tpo(self.template_params), nv: self.nv_offset as int, vbp: self.vbptr_offset as int, vbt: self.vbtable_offset as int, fl: self.flags as int } }

@fn cache::RttiBaseClassDescriptor::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Rtti }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::RttiBaseClassDescriptor::UnwrapStorage<,>::try_unwrap


@fn cache::RttiBaseClassDescriptor::UnwrapStorage<,>::try_unwrap_mut


@fn cache::NodeArrayNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Array { nodes: hs(self.nodes@) } }

@fn cache::NodeArray::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Array }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::NodeArray::UnwrapStorage<,>::try_unwrap


@fn cache::NodeArray::UnwrapStorage<,>::try_unwrap_mut


@fn cache::QualifiedNameNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::QName { comps: hi(self.components) } }

@fn cache::QualifiedName::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is QName }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::QualifiedName::UnwrapStorage<,>::try_unwrap


@fn cache::QualifiedName::UnwrapStorage<,>::try_unwrap_mut


@fn cache::TemplateParameterReferenceNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::TRef { symbol: ho(self.symbol), offs: is64(self.thunk_offsets.v()), aff: self.affinity } }

@fn cache::TemplateParameterReference::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is TRef }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::TemplateParameterReference::UnwrapStorage<,>::try_unwrap


@fn cache::TemplateParameterReference::UnwrapStorage<,>::try_unwrap_mut


@fn cache::IntegerLiteralNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Int { value: self.value as int, neg: self.is_negative } }

@fn cache::IntegerLiteral::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Int }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::IntegerLiteral::UnwrapStorage<,>::try_unwrap


@fn cache::IntegerLiteral::UnwrapStorage<,>::try_unwrap_mut


@fn cache::Md5SymbolNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Md5 { name: hi(self.name) } }

@fn cache::Md5Symbol::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Md5 }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::Md5Symbol::UnwrapStorage<,>::try_unwrap


@fn cache::Md5Symbol::UnwrapStorage<,>::try_unwrap_mut


@fn cache::SpecialTableSymbolNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Table { name: hi(self.name), target: ho(self.target_name), quals: self.quals.b } }

@fn cache::SpecialTableSymbol::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Table }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::SpecialTableSymbol::UnwrapStorage<,>::try_unwrap


@fn cache::SpecialTableSymbol::UnwrapStorage<,>::try_unwrap_mut


@fn cache::LocalStaticGuardVariableNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::GuardVar { name: hi(self.name) } }

@fn cache::LocalStaticGuardVariable::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is GuardVar }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::LocalStaticGuardVariable::UnwrapStorage<,>::try_unwrap


@fn cache::LocalStaticGuardVariable::UnwrapStorage<,>::try_unwrap_mut


@fn cache::EncodedStringLiteralNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Str { name: ho(self.name), text: self.decoded_string@, trunc: self.is_truncated, ch: self.char } }

@fn cache::EncodedStringLiteral::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Str }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::EncodedStringLiteral::UnwrapStorage<,>::try_unwrap


@fn cache::EncodedStringLiteral::UnwrapStorage<,>::try_unwrap_mut


@fn cache::VariableSymbolNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Var { name: svn(self.name), sc: self.sc, ty: ho(self.r#type) } }

@fn cache::VariableSymbol::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Var }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::VariableSymbol::UnwrapStorage<,>::try_unwrap


@fn cache::VariableSymbol::UnwrapStorage<,>::try_unwrap_mut


@fn cache::FunctionSymbolNode::NodeToResolver#
@extra
    open spec fn nv(self) -> SNode { SNode::Func { name: ho(self.name), sig: hi(self.signature) } }

@fn cache::FunctionSymbol::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { n is Func }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == (*o).nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == (*o).nv() && n2 == (*final(o)).nv() }

@fn cache::FunctionSymbol::UnwrapStorage<,>::try_unwrap


@fn cache::FunctionSymbol::UnwrapStorage<,>::try_unwrap_mut


@fn cache::INode::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { true }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == o.nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == o.mv() && n2 == o.mfv() }

@fn cache::INode::UnwrapStorage<,>::try_unwrap
@entry
  broadcast use group_std;

@fn cache::INode::UnwrapStorage<,>::try_unwrap_mut
@entry
  broadcast use group_std;

@fn cache::ITypeNode::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { is_type(n) }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == o.nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == o.mv() && n2 == o.mfv() }

@fn cache::ITypeNode::UnwrapStorage<,>::try_unwrap
@entry
  broadcast use group_std;

@fn cache::ITypeNode::UnwrapStorage<,>::try_unwrap_mut
@entry
  broadcast use group_std;

@fn cache::ISignatureNode::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { is_sig(n) }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == o.nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == o.mv() && n2 == o.mfv() }

@fn cache::ISignatureNode::UnwrapStorage<,>::try_unwrap
@entry
  broadcast use group_std;

@fn cache::ISignatureNode::UnwrapStorage<,>::try_unwrap_mut
@entry
  broadcast use group_std;

@fn cache::IIdentifierNode::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { is_ident(n) }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == o.nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == o.mv() && n2 == o.mfv() }

@fn cache::IIdentifierNode::UnwrapStorage<,>::try_unwrap
@entry
  broadcast use group_std;

@fn cache::IIdentifierNode::UnwrapStorage<,>::try_unwrap_mut
@entry
  broadcast use group_std;

@fn cache::ISymbolNode::UnwrapStorage<,>#
@extra
    open spec fn matches(n: SNode) -> bool { is_symbol(n) }
    open spec fn is_view(n: SNode, o: Self::Output) -> bool { n == o.nv() }
    #[verifier::prophetic]
    open spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool { n == o.mv() && n2 == o.mfv() }

@fn cache::ISymbolNode::UnwrapStorage<,>::try_unwrap
@entry
  broadcast use group_std;

@fn cache::ISymbolNode::UnwrapStorage<,>::try_unwrap_mut
@entry
  broadcast use group_std;

@fn cache::
@extra
impl<'alloc> NodeStorage<'alloc> {
    pub open spec fn v(self) -> SNode { match self {
        NodeStorage::PrimitiveType(x) => (*x).nv(),
        NodeStorage::FunctionSignature(x) => (*x).nv(),
        NodeStorage::ThunkSignature(x) => (*x).nv(),
        NodeStorage::PointerType(x) => (*x).nv(),
        NodeStorage::TagType(x) => (*x).nv(),
        NodeStorage::ArrayType(x) => (*x).nv(),
        NodeStorage::CustomType(x) => (*x).nv(),
        NodeStorage::VcallThunkIdentifier(x) => (*x).nv(),
        NodeStorage::DynamicStructorIdentifier(x) => (*x).nv(),
        NodeStorage::NamedIdentifier(x) => (*x).nv(),
        NodeStorage::IntrinsicFunctionIdentifier(x) => (*x).nv(),
        NodeStorage::LiteralOperatorIdentifier(x) => (*x).nv(),
        NodeStorage::LocalStaticGuardIdentifier(x) => (*x).nv(),
        NodeStorage::ConversionOperatorIdentifier(x) => (*x).nv(),
        NodeStorage::StructorIdentifier(x) => (*x).nv(),
        NodeStorage::RttiBaseClassDescriptor(x) => (*x).nv(),
        NodeStorage::NodeArray(x) => (*x).nv(),
        NodeStorage::QualifiedName(x) => (*x).nv(),
        NodeStorage::TemplateParameterReference(x) => (*x).nv(),
        NodeStorage::IntegerLiteral(x) => (*x).nv(),
        NodeStorage::Md5Symbol(x) => (*x).nv(),
        NodeStorage::SpecialTableSymbol(x) => (*x).nv(),
        NodeStorage::LocalStaticGuardVariable(x) => (*x).nv(),
        NodeStorage::EncodedStringLiteral(x) => (*x).nv(),
        NodeStorage::VariableSymbol(x) => (*x).nv(),
        NodeStorage::FunctionSymbol(x) => (*x).nv(),
    } }
}
impl<'alloc> NodeCache<'alloc> {
    pub open spec fn v(self) -> Seq<SNode> { Seq::new(self.storage@.len(), |i: int| self.storage@[i].v()) }
}

@fn nodes::intermediate::
@extra
impl<'storage, 'alloc: 'storage> NodeConst<'storage, 'alloc> {
    pub open spec fn nv(self) -> SNode { match self { Node::Type(x) => x.nv(), Node::Identifier(x) => x.nv(), Node::NodeArray(x) => (*x).nv(), Node::QualifiedName(x) => (*x).nv(), Node::TemplateParameterReference(x) => (*x).nv(), Node::IntegerLiteral(x) => (*x).nv(), Node::Symbol(x) => x.nv(), } }
}
impl<'storage, 'alloc: 'storage> NodeMut<'storage, 'alloc> {
    pub open spec fn mv(self) -> SNode { match self { Node::Type(x) => x.mv(), Node::Identifier(x) => x.mv(), Node::NodeArray(x) => (*x).nv(), Node::QualifiedName(x) => (*x).nv(), Node::TemplateParameterReference(x) => (*x).nv(), Node::IntegerLiteral(x) => (*x).nv(), Node::Symbol(x) => x.mv(), } }
    #[verifier::prophetic]
    pub open spec fn mfv(self) -> SNode { match self { Node::Type(x) => x.mfv(), Node::Identifier(x) => x.mfv(), Node::NodeArray(x) => (*final(x)).nv(), Node::QualifiedName(x) => (*final(x)).nv(), Node::TemplateParameterReference(x) => (*final(x)).nv(), Node::IntegerLiteral(x) => (*final(x)).nv(), Node::Symbol(x) => x.mfv(), } }
}
impl<'storage, 'alloc: 'storage> TypeNodeConst<'storage, 'alloc> {
    pub open spec fn nv(self) -> SNode { match self { TypeNode::PrimitiveType(x) => (*x).nv(), TypeNode::Signature(x) => x.nv(), TypeNode::PointerType(x) => (*x).nv(), TypeNode::TagType(x) => (*x).nv(), TypeNode::ArrayType(x) => (*x).nv(), TypeNode::CustomType(x) => (*x).nv(), } }
}
impl<'storage, 'alloc: 'storage> TypeNodeMut<'storage, 'alloc> {
    pub open spec fn mv(self) -> SNode { match self { TypeNode::PrimitiveType(x) => (*x).nv(), TypeNode::Signature(x) => x.mv(), TypeNode::PointerType(x) => (*x).nv(), TypeNode::TagType(x) => (*x).nv(), TypeNode::ArrayType(x) => (*x).nv(), TypeNode::CustomType(x) => (*x).nv(), } }
    #[verifier::prophetic]
    pub open spec fn mfv(self) -> SNode { match self { TypeNode::PrimitiveType(x) => (*final(x)).nv(), TypeNode::Signature(x) => x.mfv(), TypeNode::PointerType(x) => (*final(x)).nv(), TypeNode::TagType(x) => (*final(x)).nv(), TypeNode::ArrayType(x) => (*final(x)).nv(), TypeNode::CustomType(x) => (*final(x)).nv(), } }
}
impl<'storage, 'alloc: 'storage> SignatureNodeConst<'storage, 'alloc> {
    pub open spec fn nv(self) -> SNode { match self { SignatureNode::FunctionSignature(x) => (*x).nv(), SignatureNode::ThunkSignature(x) => (*x).nv(), } }
}
impl<'storage, 'alloc: 'storage> SignatureNodeMut<'storage, 'alloc> {
    pub open spec fn mv(self) -> SNode { match self { SignatureNode::FunctionSignature(x) => (*x).nv(), SignatureNode::ThunkSignature(x) => (*x).nv(), } }
    #[verifier::prophetic]
    pub open spec fn mfv(self) -> SNode { match self { SignatureNode::FunctionSignature(x) => (*final(x)).nv(), SignatureNode::ThunkSignature(x) => (*final(x)).nv(), } }
}
impl<'storage, 'alloc: 'storage> IdentifierNodeConst<'storage, 'alloc> {
    pub open spec fn nv(self) -> SNode { match self { IdentifierNode::VcallThunkIdentifier(x) => (*x).nv(), IdentifierNode::DynamicStructorIdentifier(x) => (*x).nv(), IdentifierNode::NamedIdentifier(x) => (*x).nv(), IdentifierNode::IntrinsicFunctionIdentifier(x) => (*x).nv(), IdentifierNode::LiteralOperatorIdentifier(x) => (*x).nv(), IdentifierNode::LocalStaticGuardIdentifier(x) => (*x).nv(), IdentifierNode::ConversionOperatorIdentifier(x) => (*x).nv(), IdentifierNode::StructorIdentifier(x) => (*x).nv(), IdentifierNode::RttiBaseClassDescriptor(x) => (*x).nv(), } }
}
impl<'storage, 'alloc: 'storage> IdentifierNodeMut<'storage, 'alloc> {
    pub open spec fn mv(self) -> SNode { match self { IdentifierNode::VcallThunkIdentifier(x) => (*x).nv(), IdentifierNode::DynamicStructorIdentifier(x) => (*x).nv(), IdentifierNode::NamedIdentifier(x) => (*x).nv(), IdentifierNode::IntrinsicFunctionIdentifier(x) => (*x).nv(), IdentifierNode::LiteralOperatorIdentifier(x) => (*x).nv(), IdentifierNode::LocalStaticGuardIdentifier(x) => (*x).nv(), IdentifierNode::ConversionOperatorIdentifier(x) => (*x).nv(), IdentifierNode::StructorIdentifier(x) => (*x).nv(), IdentifierNode::RttiBaseClassDescriptor(x) => (*x).nv(), } }
    #[verifier::prophetic]
    pub open spec fn mfv(self) -> SNode { match self { IdentifierNode::VcallThunkIdentifier(x) => (*final(x)).nv(), IdentifierNode::DynamicStructorIdentifier(x) => (*final(x)).nv(), IdentifierNode::NamedIdentifier(x) => (*final(x)).nv(), IdentifierNode::IntrinsicFunctionIdentifier(x) => (*final(x)).nv(), IdentifierNode::LiteralOperatorIdentifier(x) => (*final(x)).nv(), IdentifierNode::LocalStaticGuardIdentifier(x) => (*final(x)).nv(), IdentifierNode::ConversionOperatorIdentifier(x) => (*final(x)).nv(), IdentifierNode::StructorIdentifier(x) => (*final(x)).nv(), IdentifierNode::RttiBaseClassDescriptor(x) => (*final(x)).nv(), } }
}
impl<'storage, 'alloc: 'storage> SymbolNodeConst<'storage, 'alloc> {
    pub open spec fn nv(self) -> SNode { match self { SymbolNode::Md5Symbol(x) => (*x).nv(), SymbolNode::SpecialTableSymbol(x) => (*x).nv(), SymbolNode::LocalStaticGuardVariable(x) => (*x).nv(), SymbolNode::EncodedStringLiteral(x) => (*x).nv(), SymbolNode::VariableSymbol(x) => (*x).nv(), SymbolNode::FunctionSymbol(x) => (*x).nv(), } }
}
impl<'storage, 'alloc: 'storage> SymbolNodeMut<'storage, 'alloc> {
    pub open spec fn mv(self) -> SNode { match self { SymbolNode::Md5Symbol(x) => (*x).nv(), SymbolNode::SpecialTableSymbol(x) => (*x).nv(), SymbolNode::LocalStaticGuardVariable(x) => (*x).nv(), SymbolNode::EncodedStringLiteral(x) => (*x).nv(), SymbolNode::VariableSymbol(x) => (*x).nv(), SymbolNode::FunctionSymbol(x) => (*x).nv(), } }
    #[verifier::prophetic]
    pub open spec fn mfv(self) -> SNode { match self { SymbolNode::Md5Symbol(x) => (*final(x)).nv(), SymbolNode::SpecialTableSymbol(x) => (*final(x)).nv(), SymbolNode::LocalStaticGuardVariable(x) => (*final(x)).nv(), SymbolNode::EncodedStringLiteral(x) => (*final(x)).nv(), SymbolNode::VariableSymbol(x) => (*final(x)).nv(), SymbolNode::FunctionSymbol(x) => (*final(x)).nv(), } }
}


@fn cache::NodeToResolver#
@extra
    spec fn nv(self) -> SNode;

@fn cache::UnwrapStorage#
@extra
    spec fn matches(n: SNode) -> bool;
    spec fn is_view(n: SNode, o: Self::Output) -> bool;
    #[verifier::prophetic]
    spec fn is_mut_view(n: SNode, n2: SNode, o: Self::OutputMut) -> bool;

@fn cache::UnwrapStorage::try_unwrap
@spec
  ensures r.is_some() == Self::matches(this.v()), r matches Some(o) ==> Self::is_view(this.v(), o)

@fn cache::UnwrapStorage::try_unwrap_mut
@spec
  ensures
    r.is_some() == Self::matches(old(this).v()),
    r matches Some(o) ==> Self::is_mut_view(old(this).v(), final(this).v(), o),
    r is None ==> final(this).v() == old(this).v()

@fn cache::Downcast#
@extra
    spec fn hd(self) -> int;
    spec fn from_k(n: SNode) -> bool;
    spec fn to_k(n: SNode) -> bool;

@fn cache::Downcast::downcast
@spec
  requires 0 <= self.hd() < cache.v().len(), Self::from_k(cache.v()[self.hd()])
  ensures (r is Some) == Self::to_k(cache.v()[self.hd()]), r matches Some(x) ==> hi(x) == self.hd()

@fn cache::NodeHandle::downcast
@spec
  requires 0 <= self.hd() < cache.v().len(), Self::from_k(cache.v()[self.hd()])
  ensures (r is Some) == Self::to_k(cache.v()[self.hd()]), r matches Some(x) ==> hi(x) == self.hd()

@fn cache::NodeHandle<INode>::Downcast<ITypeNode>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { is_type(n) }

@fn cache::NodeHandle<INode>::Downcast<ITypeNode>::downcast


@fn cache::NodeHandle<INode>::Downcast<IIdentifierNode>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { is_ident(n) }

@fn cache::NodeHandle<INode>::Downcast<IIdentifierNode>::downcast


@fn cache::NodeHandle<INode>::Downcast<NodeArray>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { n is Array }

@fn cache::NodeHandle<INode>::Downcast<NodeArray>::downcast


@fn cache::NodeHandle<INode>::Downcast<QualifiedName>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { n is QName }

@fn cache::NodeHandle<INode>::Downcast<QualifiedName>::downcast


@fn cache::NodeHandle<INode>::Downcast<TemplateParameterReference>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { n is TRef }

@fn cache::NodeHandle<INode>::Downcast<TemplateParameterReference>::downcast


@fn cache::NodeHandle<INode>::Downcast<IntegerLiteral>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { n is Int }

@fn cache::NodeHandle<INode>::Downcast<IntegerLiteral>::downcast


@fn cache::NodeHandle<INode>::Downcast<ISymbolNode>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { is_symbol(n) }

@fn cache::NodeHandle<INode>::Downcast<ISymbolNode>::downcast


@fn cache::NodeHandle<INode>::Downcast<ISignatureNode>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { is_sig(n) }

@fn cache::NodeHandle<INode>::Downcast<ISignatureNode>::downcast


@fn cache::NodeHandle<INode>::Downcast<FunctionSignature>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { n is Sig }

@fn cache::NodeHandle<INode>::Downcast<FunctionSignature>::downcast


@fn cache::NodeHandle<INode>::Downcast<ThunkSignature>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { true }
    open spec fn to_k(n: SNode) -> bool { n is Thunk }

@fn cache::NodeHandle<INode>::Downcast<ThunkSignature>::downcast


@fn cache::NodeHandle<ITypeNode>::Downcast<PrimitiveType>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_type(n) }
    open spec fn to_k(n: SNode) -> bool { n is Prim }

@fn cache::NodeHandle<ITypeNode>::Downcast<PrimitiveType>::downcast


@fn cache::NodeHandle<ITypeNode>::Downcast<ISignatureNode>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_type(n) }
    open spec fn to_k(n: SNode) -> bool { is_sig(n) }

@fn cache::NodeHandle<ITypeNode>::Downcast<ISignatureNode>::downcast


@fn cache::NodeHandle<ITypeNode>::Downcast<PointerType>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_type(n) }
    open spec fn to_k(n: SNode) -> bool { n is Ptr }

@fn cache::NodeHandle<ITypeNode>::Downcast<PointerType>::downcast


@fn cache::NodeHandle<ITypeNode>::Downcast<TagType>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_type(n) }
    open spec fn to_k(n: SNode) -> bool { n is Tag }

@fn cache::NodeHandle<ITypeNode>::Downcast<TagType>::downcast


@fn cache::NodeHandle<ITypeNode>::Downcast<ArrayType>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_type(n) }
    open spec fn to_k(n: SNode) -> bool { n is Arr }

@fn cache::NodeHandle<ITypeNode>::Downcast<ArrayType>::downcast


@fn cache::NodeHandle<ITypeNode>::Downcast<CustomType>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_type(n) }
    open spec fn to_k(n: SNode) -> bool { n is Custom }

@fn cache::NodeHandle<ITypeNode>::Downcast<CustomType>::downcast


@fn cache::NodeHandle<ISignatureNode>::Downcast<FunctionSignature>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_sig(n) }
    open spec fn to_k(n: SNode) -> bool { n is Sig }

@fn cache::NodeHandle<ISignatureNode>::Downcast<FunctionSignature>::downcast


@fn cache::NodeHandle<ISignatureNode>::Downcast<ThunkSignature>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_sig(n) }
    open spec fn to_k(n: SNode) -> bool { n is Thunk }

@fn cache::NodeHandle<ISignatureNode>::Downcast<ThunkSignature>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<VcallThunkIdentifier>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is Vcall }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<VcallThunkIdentifier>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<DynamicStructorIdentifier>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is DynStruct }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<DynamicStructorIdentifier>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<NamedIdentifier>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is Named }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<NamedIdentifier>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<IntrinsicFunctionIdentifier>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is Intrinsic }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<IntrinsicFunctionIdentifier>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<LiteralOperatorIdentifier>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is LitOp }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<LiteralOperatorIdentifier>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<LocalStaticGuardIdentifier>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is Guard }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<LocalStaticGuardIdentifier>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<ConversionOperatorIdentifier>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is Conv }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<ConversionOperatorIdentifier>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<StructorIdentifier>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is Structor }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<StructorIdentifier>::downcast


@fn cache::NodeHandle<IIdentifierNode>::Downcast<RttiBaseClassDescriptor>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_ident(n) }
    open spec fn to_k(n: SNode) -> bool { n is Rtti }

@fn cache::NodeHandle<IIdentifierNode>::Downcast<RttiBaseClassDescriptor>::downcast


@fn cache::NodeHandle<ISymbolNode>::Downcast<Md5Symbol>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_symbol(n) }
    open spec fn to_k(n: SNode) -> bool { n is Md5 }

@fn cache::NodeHandle<ISymbolNode>::Downcast<Md5Symbol>::downcast


@fn cache::NodeHandle<ISymbolNode>::Downcast<SpecialTableSymbol>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_symbol(n) }
    open spec fn to_k(n: SNode) -> bool { n is Table }

@fn cache::NodeHandle<ISymbolNode>::Downcast<SpecialTableSymbol>::downcast


@fn cache::NodeHandle<ISymbolNode>::Downcast<LocalStaticGuardVariable>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_symbol(n) }
    open spec fn to_k(n: SNode) -> bool { n is GuardVar }

@fn cache::NodeHandle<ISymbolNode>::Downcast<LocalStaticGuardVariable>::downcast


@fn cache::NodeHandle<ISymbolNode>::Downcast<EncodedStringLiteral>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_symbol(n) }
    open spec fn to_k(n: SNode) -> bool { n is Str }

@fn cache::NodeHandle<ISymbolNode>::Downcast<EncodedStringLiteral>::downcast


@fn cache::NodeHandle<ISymbolNode>::Downcast<VariableSymbol>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_symbol(n) }
    open spec fn to_k(n: SNode) -> bool { n is Var }

@fn cache::NodeHandle<ISymbolNode>::Downcast<VariableSymbol>::downcast


@fn cache::NodeHandle<ISymbolNode>::Downcast<FunctionSymbol>#
@extra
    open spec fn hd(self) -> int { hi(self) }
    open spec fn from_k(n: SNode) -> bool { is_symbol(n) }
    open spec fn to_k(n: SNode) -> bool { n is Func }

@fn cache::NodeHandle<ISymbolNode>::Downcast<FunctionSymbol>::downcast

