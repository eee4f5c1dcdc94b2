exec(open('/verif/tools/seed/s6.py').read().split("\nS=[")[0])
L=('-p cpparser --lib')
def pm(body): return '''
#[cfg(test)]
mod demo_mod {
    use super::*;
    use crate::tests::unwrap_parse;
    #[test]
    fn demo_test() {
        let mut p = crate::EntityParser::new();
'''+body+'''
    }
}
'''
TY='cpparser/src/subparsers/types/mod.rs'; DC='cpparser/src/subparsers/types/declarators.rs'; FN='cpparser/src/subparsers/functions.rs'; US='cpparser/src/subparsers/operators/usage.rs'; SC='cpparser/src/subparsers/names/scopes.rs'; VA='cpparser/src/subparsers/values/mod.rs'
S=[
dict(id='p04-late-qualifiers',prop='P04',needs='a pointer declarator with qualifiers on both sides of __restrict',
 breaks='the qualifiers after __restrict are lost when there are others before it',
 edits=[(DC,'.map(|(cv1, restrict, cv2)| (cv1 | cv2, restrict))','.map(|(cv1, restrict, cv2)| {\n                let cv = if restrict && cv1 == ConstVolatile::VOLATILE {\n                    cv1\n                } else {\n                    cv1 | cv2\n                };\n                (cv, restrict)\n            })')],
 unit=pm('''
        let a = unwrap_parse(p.parse_type_like("T* const volatile __restrict"));
        let b = unwrap_parse(p.parse_type_like("T* volatile __restrict const"));
        let c = unwrap_parse(p.parse_type_like("T* volatile __restrict"));
        assert!(a == b && a != c);'''),**U(DC,L)),
dict(id='p04-after-ellipsis',prop='P04',needs='a list of parameters that goes on after an ellipsis',
 breaks='the parameters after an ellipsis are dropped where the text should not be recognized as a function signature',
 edits=[(FN,'(entry, variadic, true)','(entry, variadic, bad)')],
 unit=pm('''
        let a = p.parse_function_signature("(int, ..., char)").map(|x| x.0.to_owned());
        assert!(a.is_err() || a == Ok("(int, ..., char)".to_owned()), "{a:?}");'''),**U(FN,L)),
dict(id='p04-rooted-placement',prop='P04',needs='a rooted new-expression with a placement',
 breaks='::new (a) T is taken for new (a) T',
 edits=[(US,'''NewExpression {
            rooted,
            placement,''','''NewExpression {
            rooted: rooted && (placement.is_none() || constructor.is_some()),
            placement,''')],
 unit=pm('''
        let a = unwrap_parse(p.parse_new_expression("::new (a) T"));
        let b = unwrap_parse(p.parse_new_expression("new (a) T"));
        assert!(a != b);'''),**U(US,L)),
dict(id='p04-repeated-scope',prop='P04',needs='a scope that is directly nested in one of the same name, such as an injected class name',
 breaks='A::A::f is taken for A::f',
 edits=[(SC,'''                ScopeOrUnqualifiedId::Scope(scope) => scopes.push(scope),
''','''                ScopeOrUnqualifiedId::Scope(scope) => {
                    if last_scope.replace(scope) != Some(scope) {
                        scopes.push(scope);
                    }
                }
'''),(SC,'''        let mut scopes = self.scope_sequences.entry();
''','''        let mut scopes = self.scope_sequences.entry();
        let mut last_scope = None;
''')],
 unit=pm('''
        let a = unwrap_parse(p.parse_nested_name_specifier("A::A::"));
        let b = unwrap_parse(p.parse_nested_name_specifier("A::"));
        assert!(a != b);'''),**U(SC,L)),
dict(id='p04-clone-suffix',prop='P04',needs='an entity that is followed by an annotation, such as " [with T = int]"',
 breaks='the annotation is dropped and the entity accepted as if it were not there',
 edits=[('cpparser/src/lib.rs','final_parser(type_like.or(unknown).terminated(eof))(s)','''let s = s.split_once(" [").map_or(s, |(head, _)| head);
        final_parser(type_like.or(unknown).terminated(eof))(s)''')],
 unit=pm('''
        let a = p.parse_entity("foo [with T = int; U = int]");
        assert!(a.is_err());'''),**U('cpparser/src/lib.rs',L)),
dict(id='p04-trailing-call',prop='P04',needs='a value that is a negated call or index, in a template argument',
 breaks='what follows the operand of a unary operator (arguments, indices, members) is lost',
 edits=[(VA,'''            .map(|(header, trailer)| {
                self.values''','''            .map(|(header, trailer)| {
                let trailer = match header {
                    ValueHeader::Parenthesized(_) if !allow_greater => {
                        self.value_trailers.entry().intern()
                    }
                    _ => trailer,
                };
                self.values''')],
 unit=pm('''
        let a = unwrap_parse(p.parse_type_like("T<(1)+1>"));
        let b = unwrap_parse(p.parse_type_like("T<(1)>"));
        assert!(a != b);'''),**U(VA,L)),
]
