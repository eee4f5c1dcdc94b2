TM="cpparser/src/subparsers/types/mod.rs"
FN="cpparser/src/subparsers/functions.rs"
OLD="""        tuple((
            attributes.terminated(multispace0),
            (|s| self.parse_type_specifier_imut(s)).terminated(multispace0),
            |s| self.parse_declarator_imut(s),
        ))
        .map(|(attributes, type_specifier, declarator)| {
            self.types.borrow_mut().intern(TypeLike {
                attributes,
                type_specifier,
                declarator,
            })
        })
        .parse(s)
"""
def manual(attr):
    return """        let (s, attributes) = attributes.terminated(multispace0).parse(s)?;
        let (s, type_specifier) = (|s| self.parse_type_specifier_imut(s)).terminated(multispace0).parse(s)?;
        let (s, declarator) = self.parse_declarator_imut(s)?;
        let _ = &attributes;
        let key = self.types.borrow_mut().intern(TypeLike {
            attributes: %s,
            type_specifier,
            declarator,
        });
        Ok((s, key))
""" % attr
IMP="""            sequence::{delimited, tuple},"""
SIG="""            |(abi, parameter_set, cv, reference, noexcept, trailing_return)| FunctionSignature {
                abi,
                parameter_set,
                cv,
                reference,
                noexcept,
                trailing_return,
            },
"""
M=[
("manual type","P04","-",[(TM,OLD,manual("attributes")),(TM,IMP,"            sequence::delimited,")]),
("manual type bad","P04","P04",[(TM,OLD,manual("self.function_arguments.entry().intern()")),(TM,IMP,"            sequence::delimited,")]),
("sig block","P04","-",[(FN,SIG,"""            |parts| {
                let (abi, parameter_set, cv, reference, noexcept, trailing_return) = parts;
                FunctionSignature {
                    trailing_return,
                    noexcept,
                    abi,
                    parameter_set,
                    cv,
                    reference,
                }
            },
""")]),
("sig bad","P04","P04",[(FN,SIG,"""            |parts| {
                let (abi, parameter_set, cv, _reference, noexcept, trailing_return) = parts;
                FunctionSignature {
                    trailing_return,
                    noexcept,
                    abi,
                    parameter_set,
                    cv,
                    reference: Default::default(),
                }
            },
""")]),
("call for loop entry","P04","-",[(FN,"""            |mut entry, item| {
                entry.push(item);
                entry
            },
        )
        .map(|entry| entry.intern());

        let empty_parameters = char(')').map(|_| self.function_arguments""","""            |entry, item| {
                let mut list = entry;
                list.push(item);
                list
            },
        )
        .map(|list| {
            let key = list.intern();
            key
        });

        let empty_parameters = char(')').map(|_| self.function_arguments""")]),
("call helper fn","P04","-",[(FN,"""            |mut entry, item| {
                entry.push(item);
                entry
            },
        )
        .map(|entry| entry.intern());

        let empty_parameters = char(')').map(|_| self.function_arguments""","""            |entry, item| Self::with_item(entry, item),
        )
        .map(|entry| entry.intern());

        let empty_parameters = char(')').map(|_| self.function_arguments"""),
 (FN,"    /// Access a previously parsed list of function arguments (from a function call)","""    fn with_item<'a>(mut entry: SequenceEntry<'a, ValueKey, FunctionArgumentsKey>, item: ValueKey) -> SequenceEntry<'a, ValueKey, FunctionArgumentsKey> {
        entry.push(item);
        entry
    }

    /// Access a previously parsed list of function arguments (from a function call)"""),(FN,"use crate::{","use crate::interning::recursion::SequenceEntry;\nuse crate::{")]),
]
