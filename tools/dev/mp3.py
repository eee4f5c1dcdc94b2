F='cpparser/src/subparsers/functions.rs'; O='cpparser/src/subparsers/operators/mod.rs'; D='cpparser/src/subparsers/types/declarators.rs'
S='cpparser/src/interning/slice.rs'; T='cpparser/src/subparsers/templates.rs'; N='cpparser/src/subparsers/names/scopes.rs'
A='cpparser/src/subparsers/anonymous.rs'; Y='cpparser/src/subparsers/types/mod.rs'; U='cpparser/src/subparsers/operators/usage.rs'
V='cpparser/src/subparsers/values/mod.rs'; I='cpparser/src/subparsers/names/unqualified.rs'; L='cpparser/src/subparsers/values/literals.rs'; E='cpparser/src/lib.rs'
K='cpparser/src/subparsers/names/atoms.rs'; P='cpparser/src/subparsers/types/specifiers/mod.rs'
X='P03'
M=[
('swap ctor',X,'P03',[(U,'            .constructor\n            .map(|args|','            .placement\n            .map(|args|')]),
('ternary',X,'P03',[(V,'Self::TernaryOp(entities.value_like(v1), entities.value_like(v2))','Self::TernaryOp(entities.value_like(v2), entities.value_like(v1))')]),
('sizeof',X,'P03',[(V,'ValueHeader::DeclVal(t) => Self::DeclVal(','ValueHeader::DeclVal(t) => Self::SizeOf(')]),
('noexcept flat',X,'P03',[(F,'.map(|o| o.map(|v| self.entities.value_like(v)))','.map(|_| None)')]),
('noexcept filter',X,'P03',[(F,'            .noexcept\n            .map(|o|','            .noexcept\n            .filter(|o| o.is_some())\n            .map(|o|')]),
('cv const',X,'P03',[(F,'        self.inner.cv\n','        if self.inner.reference == Reference::None { self.inner.cv } else { ConstVolatile::default() }\n')]),
('rooted neg',X,'P03',[(U,'        self.inner.rooted\n','        !self.inner.rooted\n')]),
('array delete',X,'P03',[(O,'Operator::NewDelete { is_delete, array } => Self::NewDelete { is_delete, array },','Operator::NewDelete { is_delete, array } => Self::NewDelete { is_delete, array: array && !is_delete },')]),
('basic swap',X,'P03',[(O,'            } => Self::Basic {\n                symbol,\n                twice,\n                equal,','            } => Self::Basic {\n                symbol,\n                twice: equal,\n                equal: twice,')]),
('tparams',X,'P03',[(I,'''            UnqualifiedId::Operator {
                operator,
                template_parameters,
            } => Self::Operator {
                operator: entities.operator(operator),
                template_parameters: template_parameters.map(|tp| entities.template_parameters(tp)),''','''            UnqualifiedId::Operator {
                operator,
                template_parameters,
            } => Self::Operator {
                operator: entities.operator(operator),
                template_parameters: template_parameters
                    .filter(|tp| tp.is_some())
                    .map(|tp| entities.template_parameters(tp)),''')]),
('items rev',X,'P03',[(S,'            .iter()\n            .map(move |item| ItemView::new','            .iter()\n            .rev()\n            .map(move |item| ItemView::new')]),
('len',X,'P03',[(S,'        self.inner.len()\n','        self.inner.len().saturating_sub(1)\n')]),
('empty',X,'P03',[(S,'        self.inner.is_empty()\n','        self.inner.len() <= 1\n')]),
('eq key only',X,'P03',[(Y,'std::ptr::eq(self.entities, other.entities) && (self.key == other.key)','self.key == other.key')]),
('eq or',X,'P03',[(N,'''impl PartialEq for ScopeView<'_> {
    fn eq(&self, other: &Self) -> bool {
        std::ptr::eq(self.entities, other.entities) && (self.inner == other.inner)''','''impl PartialEq for ScopeView<'_> {
    fn eq(&self, other: &Self) -> bool {
        std::ptr::eq(self.entities, other.entities) || (self.inner == other.inner)''')]),
('entity none',X,'P03',[(E,'        Self(inner.map(|ty| entities.type_like(ty)))','        Self(inner.map(|ty| entities.type_like(ty)).filter(|ty| !ty.declarator().is_empty()))')]),
('restrict',X,'P03',[(D,'''                cv,
                restrict,
            },
            DeclOperator::Reference(r) =>''','''                cv,
                restrict: restrict && cv == ConstVolatile::default(),
            },
            DeclOperator::Reference(r) =>''')]),
('array none',X,'P03',[(D,'DeclOperator::VectorSize(v) => Self::VectorSize(entities.value_like(v)),','DeclOperator::VectorSize(v) => Self::Array(Some(entities.value_like(v))),')]),
('lambda loc',X,'P03',[(A,'        self.inner.location\n','        (self.inner.location.1, self.inner.location.0)\n')]),
# refactorings
('direct new',X,'-',[(F,'            .map(|t| self.entities.type_like(t))','            .map(|t| TypeView::new(t, self.entities))')]),
('match opt',X,'-',[(F,'''        self.inner
            .trailing_return
            .map(|t| self.entities.type_like(t))''','''        match self.inner.trailing_return {
            Some(ty) => Some(self.entities.type_like(ty)),
            None => None,
        }''')]),
('question',X,'-',[(F,'''        self.inner
            .trailing_return
            .map(|t| self.entities.type_like(t))''','''        let ty = self.inner.trailing_return?;
        Some(self.entities.type_like(ty))''')]),
('helper',X,'-',[(U,'''        self.inner
            .placement
            .map(|args| self.entities.function_arguments(args))''','''        self.arguments(self.inner.placement)'''),(U,'''        self.inner
            .constructor
            .map(|args| self.entities.function_arguments(args))
    }''','''        self.arguments(self.inner.constructor)
    }

    fn arguments(&self, args: Option<FunctionArgumentsKey>) -> Option<FunctionArgumentsView> {
        args.map(|args| self.entities.function_arguments(args))
    }''')]),
('destructure',X,'-',[(F,'        self.inner.cv\n','        let FunctionSignature { cv, .. } = self.inner;\n        cv\n')]),
('if let ctor',X,'-',[(E,'        Self(inner.map(|ty| entities.type_like(ty)))','        let view = if let Some(key) = inner { Some(TypeView::new(key, entities)) } else { None };\n        Self(view)')]),
('locals',X,'-',[(V,'                Self::TernaryOp(entities.value_like(v1), entities.value_like(v2))','                let second = entities.value_like(v2);\n                let first = entities.value_like(v1);\n                Self::TernaryOp(first, second)')]),
('whole first',X,'-',[(V,'''        match av {
            AfterValue::ArrayIndex''','''        let view = match av {
            AfterValue::ArrayIndex'''),(V,'''            AfterValue::PostfixOp(o) => Self::PostfixOp(entities.operator(o)),
            AfterValue::Ellipsis => Self::Ellipsis,
        }
    }''','''            AfterValue::PostfixOp(o) => Self::PostfixOp(entities.operator(o)),
            AfterValue::Ellipsis => Self::Ellipsis,
        };
        view
    }''')]),
('eq order',X,'-',[(N,'''impl PartialEq for ScopeView<'_> {
    fn eq(&self, other: &Self) -> bool {
        std::ptr::eq(self.entities, other.entities) && (self.inner == other.inner)''','''impl PartialEq for ScopeView<'_> {
    fn eq(&self, other: &Self) -> bool {
        if self.inner != other.inner {
            return false;
        }
        std::ptr::eq(self.entities, other.entities)''')]),
('iter fn',X,'-',[(S,'            .map(move |item| ItemView::new(item.clone(), self.entities))','            .cloned()\n            .map(move |item| ItemView::new(item, self.entities))')]),
('iter local',X,'-',[(S,'''        self.inner
            .iter()
            .map(move |item| ItemView::new(item.clone(), self.entities))''','''        let entities = self.entities;
        let items = self.inner.iter();
        items.map(move |item| ItemView::new(item.clone(), entities))''')]),
('empty len',X,'-',[(S,'        self.inner.is_empty()\n','        self.len() == 0\n')]),
('cv self fn',X,'-',[(K,'        std::ptr::eq(self.entities, other.entities) && (self.key == other.key)','        let same_parser = std::ptr::eq(self.entities, other.entities);\n        let same_key = self.key == other.key;\n        same_parser & same_key')]),
('raw inline',X,'-',[(Y,'            inner: entities.raw_type_like(key),','            inner: ARef::new(entities.types.borrow()).map(|types| types.get(key)),')]),
]
