A='asylum/src/'; C='cpparser/src/'; AR='clang-time-trace/src/stats/activity/argument.rs'
END='''
fn main() {
    let ok = demo();
    println!("{}", if ok { "as expected" } else { "VIOLATED" });
    std::process::exit(if ok { 0 } else { 1 })
}
'''
PP='''use cpparser::{display::{CustomDisplay, DisplayState}, EntityParser};
#[allow(dead_code)]
fn full(s: &str) -> String {
    let mut p = EntityParser::new();
    let k = p.parse_entity(s).unwrap();
    let x = p.entity(k).to_string();
    x
}
#[allow(dead_code)]
fn at(s: &str, depth: usize) -> String {
    let mut p = EntityParser::new();
    let k = p.parse_entity(s).unwrap();
    let e = p.entity(k);
    let r = e.display(&DisplayState::new(depth)).to_string();
    r
}
'''+END
TP='''use clang_time_trace::*;
fn args(details: &[&str]) -> Vec<String> {
    let mut t = String::from("{\\"traceEvents\\":[");
    for (i, d) in details.iter().enumerate() {
        t += &format!("{{\\"pid\\":9,\\"tid\\":9,\\"ph\\":\\"X\\",\\"ts\\":{},\\"dur\\":5,\\"name\\":\\"OptFunction\\",\\"args\\":{{\\"detail\\":\\"{d}\\"}}}},", 10 + 10 * i);
    }
    t += "{\\"cat\\":\\"\\",\\"pid\\":9,\\"tid\\":9,\\"ts\\":0,\\"ph\\":\\"M\\",\\"name\\":\\"process_name\\",\\"args\\":{\\"name\\":\\"clang\\"}}]}";
    let mut trace: ClangTrace = t.parse().unwrap();
    let raw: Vec<_> = trace.all_activities().map(|a| a.activity().raw_argument().clone()).collect();
    raw.into_iter().map(|r| match r.parse(&mut trace) {
        Ok(a) => match a.resolve(&trace) {
            ActivityArgument::Symbol(Symbol::Parsed(e)) => format!("entity {e}"),
            ActivityArgument::Symbol(Symbol::Demangled(s)) => format!("demangled {s}"),
            ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => format!("raw {s}"),
            _ => "other".into(),
        },
        Err(_) => "error".into(),
    }).collect()
}
'''+END
S=[
dict(id='s01-equal-hash',prop='S01',needs='two distinct items that have the same hash (allowed by the contract of Hash)',
 breaks='distinct items are given the same interning key if their hashes collide',
 edits=[(A+'lib.rs','.get(item_hash, |key| self.items[key.into_usize()] == item)','''.get(item_hash, |key| {
                // Equal items have equal hashes
                self.random_state.hash_one(&self.items[key.into_usize()]) == item_hash
            })''')],
 deps=['asylum'],main='''use asylum::{lasso::Spur, Interner};
#[derive(Clone, Debug, Eq, PartialEq)]
struct Item(u32);
impl std::hash::Hash for Item {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) { (self.0 / 2).hash(state) }
}
fn demo() -> bool {
    let mut i = Interner::<Item, Spur>::new();
    let k: Vec<_> = (0..6).map(|n| i.intern(Item(n))).collect();
    let d = i.finalize();
    k.iter().enumerate().all(|(n, k)| *d.get(*k) == Item(n as u32))
}
'''+END),
dict(id='s01-rehash',prop='S01',needs='enough distinct sequences for the hash table to grow, then one of the old sequences again',
 breaks='a sequence that was interned before the table grew gets another key when interned again',
 edits=[(A+'sequence.rs','''            self.random_state
                .hash_one(&self.concatenated[key.into_impl_key()])
''','''            // Keys are a cheap stand-in for the sequence that they designate
            let range = key.into_impl_key();
            self.random_state.hash_one((range.start, range.end))
''')],
 deps=['asylum'],main='''use asylum::{lasso::Spur, sequence::{SequenceInterner, SequenceKey}};
fn demo() -> bool {
    let mut i = SequenceInterner::<u32, SequenceKey<Spur, 8>>::new();
    let k: Vec<_> = (0..100).map(|n| i.intern(&[n, n])).collect();
    (0..100).all(|n| i.intern(&[n, n]) == k[n as usize])
}
'''+END),
dict(id='s02-trailing-space',prop='S02',needs='a path with a component that ends with a space',
 breaks='path components are changed when interned',
 edits=[(A+'path.rs','sequence.push(self.components.get_or_intern(component_str))','sequence.push(self.components.get_or_intern(component_str.trim_end()))')],
 deps=['asylum'],main='''use asylum::path::PathInterner;
use asylum::lasso::Spur;
fn demo() -> bool {
    let mut i = PathInterner::<Spur>::new();
    ["/a/b.h", "/a /b.h", "/a/b.h\\u{a0}", "/ /x"].iter().all(|p| {
        let k = i.intern(p).unwrap();
        i.get(k).to_boxed_path().to_str() == Some(p)
    })
}
'''+END),
dict(id='s02-deep-parents',prop='S02',needs="a path with more '..' than components before them, followed by further components",
 breaks="surplus '..' components are kept in the interned path instead of being dropped at the root",
 edits=[(A+'path.rs','''                    if sequence.len() > 1 {
                        sequence.pop();
                    }
''','''                    match sequence.len() {
                        0 => {}
                        1 if num_parents == 0 => {}
                        1 => sequence.push(self.components.get_or_intern("..")),
                        _ => std::mem::drop(sequence.pop()),
                    }
                    num_parents += 1;
'''),(A+'path.rs','''        for component in path.components() {
            use std''','''        let mut num_parents = 0;
        for component in path.components() {
            use std''')],
 deps=['asylum'],main='''use asylum::path::PathInterner;
use asylum::lasso::Spur;
fn demo() -> bool {
    let mut i = PathInterner::<Spur>::new();
    [("/a/../b", "/b"), ("/../b", "/b"), ("/a/../../b", "/b"), ("/../../c", "/c")].iter().all(|(p, e)| {
        let k = i.intern(p).unwrap();
        i.get(k).to_boxed_path().to_str() == Some(e)
    })
}
'''+END),
dict(id='p01-long-list',prop='P01',needs='a list of more than 64 items (template or function arguments, scopes)',
 breaks='items at the end of long lists are silently left out of the display',
 edits=[(C+'interning/slice.rs','let mut iterator = self.iter().peekable();','let mut iterator = self.iter().take(64).peekable();')],
 deps=['cpparser'],main=PP+'''
fn demo() -> bool {
    let args: Vec<_> = (0..200).map(|i| format!("t{i}")).collect();
    let s = format!("f<{}>", args.join(", "));
    full("f<a, b>") == "f<a, b>" && full(&s) == s
}
'''),
dict(id='p01-ternary-unlimited',prop='P01',needs='a conditional expression whose last operand is nested, displayed under a recursion limit',
 breaks='part of the entity is displayed without regard to the limit of the rest',
 edits=[(C+'subparsers/values/mod.rs','''                write!(f, " : ")?;
                v2.display_impl(f, state)''','''                write!(f, " : {v2}")''')],
 deps=['cpparser'],main=PP+'''
fn demo() -> bool {
    let s = "decltype(a ? b : f(c))";
    full(s) == s && !at(s, 1).contains("(c)")
}
'''),
dict(id='p02-wide-chars',prop='P02',needs='an entity with characters that take two columns',
 breaks='bounded displays are wider than asked for',
 edits=[(C+'display.rs','if curr_display.width() > max_cols.into() {','if curr_display.chars().count() > max_cols.into() {'),
        (C+'display.rs','use unicode_width::UnicodeWidthStr;\n','')],
 deps=['cpparser'],main=PP+'''
fn demo() -> bool {
    let mut p = EntityParser::new();
    let k = p.parse_entity("f<(lambda at /漢字漢字漢字.cpp:1:2)>").unwrap();
    let s = p.entity(k).bounded_display(33);
    println!("{s}");
    s == "f<…>"
}
'''),
dict(id='p02-conversion-depth',prop='P02',needs='a conversion operator to a type with nested components',
 breaks='the recursion depth of conversion operators is too small, so that bounded displays leave out what would fit',
 edits=[(C+'subparsers/operators/mod.rs','Self::Conversion(ty) => ty.recursion_depth(),','Self::Conversion(_) => 0,')],
 deps=['cpparser'],main=PP+'''
fn demo() -> bool {
    let mut p = EntityParser::new();
    let k = p.parse_entity("operator a<b>").unwrap();
    let e = p.entity(k);
    let s = e.bounded_display(80);
    println!("{s}");
    s == e.to_string() && s == "operator a<b>"
}
'''),
dict(id='t05-demangling-buf',prop='T05',needs='two mangled symbols in one trace',
 breaks='the demangled name of a symbol starts with those of the symbols before it',
 edits=[(AR,'''            demangling_buf.clear();
            s.structured''','''            s.structured'''),(AR,'''            Ok(Ok(())) => parse_demangled(demangling_buf.clone().into()),
''','''            Ok(Ok(())) => {
                let parsed = parse_demangled(demangling_buf.as_str().into());
                if let ParsedSymbol::Parsed(_) = parsed {
                    demangling_buf.clear();
                }
                parsed
            }
''')],
 deps=['clang-time-trace'],main=TP+'''
fn demo() -> bool {
    let a = args(&["_ZN1a1bEv", "_ZZN1aC1ERKS_ENK3$_0clEv", "_Z1fIXadL_Z1gvEEEvv", "_ZGVZ1fvE1x", "_ZN1c1dEi"]);
    println!("{a:?}");
    let b: Vec<_> = ["_ZN1a1bEv", "_ZZN1aC1ERKS_ENK3$_0clEv", "_Z1fIXadL_Z1gvEEEvv", "_ZGVZ1fvE1x", "_ZN1c1dEi"].iter().map(|s| args(&[s]).remove(0)).collect();
    a == b
}
'''),
dict(id='t05-paren-name',prop='T05',needs='an unmangled symbol name that clang has put in parentheses and that contains parentheses itself',
 breaks='parentheses that belong to the symbol name are removed along with the enclosing ones',
 edits=[(AR,'symbol = Rc::from(&symbol[1..symbol.len() - 1]);',"symbol = Rc::from(symbol.trim_matches(|c| c == '(' || c == ')'));")],
 deps=['clang-time-trace'],main=TP+'''
fn demo() -> bool {
    let a = args(&["(_Zx)", "(_Z(x))", "(_ZN1a1bEv)"]);
    println!("{a:?}");
    a == ["raw _Zx", "raw _Z(x)", "entity a::b()"]
}
'''),
]
