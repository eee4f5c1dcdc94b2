M=[]
S='cpparser/src/subparsers/'
def m(name,exp,*ch): M.append((name,'P04',exp,list(ch)))
D=S+'types/declarators.rs'; U=S+'operators/usage.rs'; F=S+'functions.rs'; V=S+'values/mod.rs'; SC=S+'names/scopes.rs'; UQ=S+'names/unqualified.rs'; O=S+'operators/overloads.rs'; OM=S+'operators/mod.rs'; T=S+'templates.rs'; TM=S+'types/mod.rs'; AN=S+'anonymous.rs'; Q=S+'types/qualifiers.rs'; L=S+'types/specifiers/legacy.rs'; SP=S+'types/specifiers/mod.rs'; LI=S+'values/literals.rs'
m('cv2 lost','P04',(D,'(cv1 | cv2, restrict)','{ let _ = cv2; (cv1, restrict) }'))
m('cv2 if restrict','P04',(D,'(cv1 | cv2, restrict)','if restrict { (cv1 | cv2, restrict) } else { (cv1, restrict) }'))
m('swap new args','P04',(U,'.map(|(rooted, (placement, ty, constructor))| NewExpression {','.map(|(rooted, (constructor, ty, placement))| NewExpression {'))
m('placement dropped when none ctor','P04',(U,'''            placement,
            ty,
            constructor,
        })
        .parse(s)''','''            placement: placement.filter(|_| constructor.is_some()),
            ty,
            constructor,
        })
        .parse(s)'''))
m('placement or ctor','P04',(U,'''            placement,
            ty,
            constructor,
        })
        .parse(s)''','''            placement,
            ty,
            constructor: constructor.or(placement),
        })
        .parse(s)'''))
m('ternary swapped','P04',(V,'.map(|(value1, value2)| AfterValue::TernaryOp(value1, value2))','.map(|(value1, value2)| AfterValue::TernaryOp(value2, value1))'))
m('ternary dup','P04',(V,'.map(|(value1, value2)| AfterValue::TernaryOp(value1, value2))','.map(|(value1, _value2)| AfterValue::TernaryOp(value1, value1))'))
m('decl dedupe','P04',(D,'''                acc.push(item);
                acc''','''                if item != DeclOperator::Reference(Reference::None) {
                    acc.push(item);
                }
                acc'''))
m('params after ellipsis','P04',(F,'''                if variadic || bad {
                    (entry, variadic, true)''','''                if variadic || bad {
                    (entry, variadic, bad)'''))
m('verify gone','P04',(F,'.verify(|(_entry, _ellipsis, bad)| !bad)','.verify(|(_entry, _ellipsis, bad)| !bad || true)'))
m('variadic lost','P04',(F,'.map(|(entry, ellipsis, _bad)| (entry.intern(), ellipsis))','.map(|(entry, _ellipsis, _bad)| (entry.intern(), false))'))
m('noexcept dropped','P04',(F,'''            opt((|s| self.parse_noexcept_imut(s)).terminated(multispace0)),
            opt(trailing_return),
        ))
        .map(
            |(abi, parameter_set, cv, reference, noexcept, trailing_return)| FunctionSignature {''','''            opt(trailing_return).terminated(opt((|s| self.parse_noexcept_imut(s)).terminated(multispace0))),
        ))
        .map(
            |(abi, parameter_set, cv, reference, trailing_return)| { let noexcept = None; FunctionSignature {'''),(F,'''                noexcept,
                trailing_return,
            },
        );''','''                noexcept,
                trailing_return,
            }},
        );'''))
m('ref lost with cv','P04',(F,'''                cv,
                reference,
                noexcept,
                trailing_return,
            },''','''                cv,
                reference: if cv == ConstVolatile::default() { reference } else { Reference::None },
                noexcept,
                trailing_return,
            },'''))
m('operator templ','P04',(UQ,'''                UnqualifiedId::Operator {
                    operator,
                    template_parameters,
                }
            });''','''                UnqualifiedId::Operator {
                    operator,
                    template_parameters: match operator { Operator::Conversion(_) => None, _ => template_parameters },
                }
            });'''))
m('new array','P04',(O,'''            is_delete: false,
            array: array.is_some(),''','''            is_delete: false,
            array: { let _ = array; false },'''))
m('arith templ','P04',(O,'Some((operator, parameters_opt))','{ let _ = parameters_opt; Some((operator, None)) }'))
m('arith symbol','P04',(O,'if symbol.is_none() {','let _ = symbol; if parameters_opt.is_none() {'))
m('scope sig','P04',(SC,'''                            id,
                            function_signature,
                        }),''','''                            id,
                            function_signature: function_signature.filter(|_| after_id.len() > 1),
                        }),'''))
m('scope push','P04',(SC,'ScopeOrUnqualifiedId::Scope(scope) => scopes.push(scope),','ScopeOrUnqualifiedId::Scope(scope) => if !rooted { scopes.push(scope) },'))
m('backtrack','P04',(SC,'Ok((_rest, (path, Some((backtrack, _id))))) => Ok((backtrack, path)),','Ok((rest, (path, Some((_backtrack, _id))))) => Ok((rest, path)),'))
m('rooted lost','-',(SC,'                    rooted,\n                    scopes: scopes.intern(),','                    rooted: rooted && false,\n                    scopes: scopes.intern(),'))
m('entity prefix','P04',('cpparser/src/lib.rs','''        use nom::combinator::eof;
        use nom_supreme::final_parser::final_parser;
''',''),('cpparser/src/lib.rs','final_parser(type_like.or(unknown).terminated(eof))(s)','''match type_like.or(unknown).parse(s) {
            Ok((_, k)) => Ok(k),
            Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => Err(e),
            Err(nom::Err::Incomplete(_)) => unreachable!(),
        }'''))
m('entity trim','P04',('cpparser/src/lib.rs','.terminated(eof))(s)','.terminated(eof))(s.trim_end_matches(\'&\'))'))
m('attributes','P04',(TM,'.map(|(attributes, type_specifier, declarator)| {\n            self.types','.map(|(_attributes, type_specifier, declarator)| {\n            let attributes = self.function_arguments.entry().intern();\n            self.types'))
m('attr opt','P04',(TM,'.map(|opt| opt.unwrap_or_else(|| self.function_arguments.entry().intern()));','.map(|_opt| self.function_arguments.entry().intern());'))
m('line col','P04',(AN,'.map(|(file, location)| SourceLocation { file, location })','.map(|(file, (c, l))| SourceLocation { file, location: (l, c) })'))
m('cv acc','P04',(Q,'|acc, cv| acc | cv,','|_acc, cv| cv,'))
m('cv spec','P04',(SP,'.map(|(cv, simple_type)| TypeSpecifier { cv, simple_type })','.map(|(cv, simple_type)| TypeSpecifier { cv: if matches!(simple_type, SimpleType::LegacyName(_)) { cv } else { Default::default() }, simple_type })'))
m('lit suffix','P04',(LI,'''            .map(|(value, custom_suffix)| Literal {
                value,
                custom_suffix,
            })''','''            .map(|(value, custom_suffix)| Literal {
                value,
                custom_suffix: if matches!(value, LiteralValue::Char(_)) { None } else { custom_suffix },
            })'''))
m('templ item','P04',(T,'''            |mut entry, item| {
                entry.push(item);
                entry''','''            |mut entry, item| {
                if let TemplateParameter::TypeLike(_) = item {
                    entry.push(item);
                }
                entry'''))
m('trailer twice','P04',(V,'''                entry.push(item);
                entry''','''                entry.push(item);
                if let AfterValue::Ellipsis = item { entry.push(item); }
                entry'''))
m('legacy size','P04',(L,'_ => acc.size = acc.size.or(item.size),','_ => {}'))
m('legacy sign','P04',(L,'acc.signedness = acc.signedness.or(item.signedness);','acc.signedness = acc.signedness;'))
m('value trailer','P04',(V,'''            .map(|(header, trailer)| {
                self.values''','''            .map(|(header, trailer)| {
                let trailer = if let ValueHeader::Ellipsis = header { self.value_trailers.entry().intern() } else { trailer };
                self.values'''))
m('member pointer cv','P04',(D,'.map(|(path, (cv, restrict))| DeclOperator::Pointer { path, cv, restrict });','.map(|(path, (cv, restrict))| DeclOperator::Pointer { path, cv: if restrict { ConstVolatile::default() } else { cv }, restrict });'))
# equivalences
m('eq new','-',(U,'''        .map(|(rooted, (placement, ty, constructor))| NewExpression {
            rooted,
            placement,
            ty,
            constructor,
        })''','''        .map(|(rooted, rest)| {
            let (placement, ty, constructor) = rest;
            let mut result = NewExpression { rooted, placement: None, ty, constructor: None };
            if placement.is_some() { result.placement = placement; }
            result.constructor = constructor;
            result
        })'''))
m('eq ctor','-',(V,'.map(|(value1, value2)| AfterValue::TernaryOp(value1, value2))','.map(|pair| { let (yes, no) = pair; AfterValue::TernaryOp(yes, no) })'))
m('eq fold','-',(D,'''            |mut acc, item| {
                acc.push(item);
                acc
            },''','''            |acc, item| {
                let mut acc = acc;
                match item {
                    DeclOperator::Pointer { .. } => acc.push(item),
                    other => acc.push(other),
                }
                acc
            },'''))
m('eq scope','-',(SC,'''            match scope_or_id {
                ScopeOrUnqualifiedId::Scope(scope) => scopes.push(scope),

''','''            match scope_or_id {
                ScopeOrUnqualifiedId::Scope(Scope { id, function_signature }) => {
                    scopes.push(Scope { id, function_signature })
                }

'''))
m('eq proto loop','-',(SC,'while let Ok((rest, scope_or_id)) = self.parse_scope_or_unqualified_id_imut(input) {','loop {\n            let Ok((rest, scope_or_id)) = self.parse_scope_or_unqualified_id_imut(input) else { break };'))
m('eq arith','-',(O,'''                if symbol.is_none() {
                    Some((operator, parameters_opt))
                } else {
                    None
                }''','''                match symbol {
                    None => Some((operator, parameters_opt)),
                    Some(_) => None,
                }'''))
m('eq array','-',(O,'''            is_delete: false,
            array: array.is_some(),''','''            is_delete: false,
            array: matches!(array, Some(_)),'''))
m('eq attr','-',(TM,'.map(|opt| opt.unwrap_or_else(|| self.function_arguments.entry().intern()));','.map(|opt| match opt { Some(a) => a, None => self.function_arguments.entry().intern() });'))
m('eq params','-',(F,'''                if variadic || bad {
                    (entry, variadic, true)
                } else {
                    match item {
                        ParameterOrEllipsis::Parameter(p) => entry.push(p),
                        ParameterOrEllipsis::Ellipsis => variadic = true,
                    };
                    (entry, variadic, false)
                }''','''                if variadic || bad {
                    return (entry, variadic, true);
                }
                if let ParameterOrEllipsis::Parameter(p) = item {
                    entry.push(p);
                } else {
                    variadic = true;
                }
                (entry, variadic, bad)'''))
m('eq entity','-',('cpparser/src/lib.rs','''        use nom::combinator::eof;
        use nom_supreme::final_parser::final_parser;
''','''        use nom_supreme::final_parser::final_parser;
'''),('cpparser/src/lib.rs','final_parser(type_like.or(unknown).terminated(eof))(s)','final_parser(type_like.or(unknown))(s)'))
m('eq helper','-',(V,'''            .map(|(header, trailer)| {
                self.values
                    .borrow_mut()
                    .intern(ValueLike { header, trailer })
            })''','''            .map(|(header, trailer)| self.record(header, trailer))'''),(V,'''    pub fn value_like(&self, v: ValueKey) -> ValueView {''','''    pub fn value_like(&self, v: ValueKey) -> ValueView {
        self.value_like_(v)
    }
    fn record(&self, header: ValueHeader, trailer: ValueTrailerKey) -> ValueKey {
        let value = ValueLike { header, trailer };
        let mut values = self.values.borrow_mut();
        values.intern(value)
    }
    fn value_like_(&self, v: ValueKey) -> ValueView {'''))
m('eq cv','-',(D,'(cv1 | cv2, restrict)','{ let mut cv = cv1; cv = cv | cv2; (cv, restrict) }'))
