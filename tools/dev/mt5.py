S='clang-time-trace/src/stats/activity/argument.rs'
A='T05'
M=[
('no clear',A,A,[(S,"            demangling_buf.clear();\n","")]),
('module prefix',A,A,[(S,'if &*detail == "[module]" {','if detail.starts_with("[module") {')]),
('path error → module',A,A,[(S,'''                    Ok(ParsedActivityArgument::FilePath(
                        parser.try_intern_path(&detail)?,
                    ))''','''                    match parser.try_intern_path(&detail) { Ok(k) => Ok(ParsedActivityArgument::FilePath(k)), Err(_) => Ok(ParsedActivityArgument::Module) }''')]),
('entity trimmed',A,A,[(S,"parser.parse_entity(s).map_err","parser.parse_entity(s.trim_end_matches(';')).map_err")]),
('symbol opt nothing on empty',A,A,[(S,'''                if has_detail() {
                    symbol_arg(parser)''','''                if detail_opt.borrow_len() {
                    symbol_arg(parser)''')] ) if 0 else
('loop trims',A,A,[(S,'if &*loop_name == "<unnamed loop>" {','if &*loop_name == "<unnamed loop>" || loop_name.is_empty() {')]),
('paren start only',A,A,[(S,"if symbol.starts_with('(') && symbol.ends_with(')') {","if symbol.starts_with('(') {")]),
('paren strip 2',A,A,[(S,"symbol = Rc::from(&symbol[1..symbol.len() - 1]);","symbol = Rc::from(&symbol[1..symbol.len() - 2]);")]),
('paren trim',A,A,[(S,"symbol = Rc::from(&symbol[1..symbol.len() - 1]);","symbol = Rc::from(symbol.trim_matches(|c| c == '(' || c == ')'));")]),
('parse raw',A,A,[(S,'"main" | "__clang_call_terminate" => parse_demangled(symbol),','"main" | "__clang_call_terminate" | "main.cold" => parse_demangled(symbol),')]),
('demangled of raw',A,A,[(S,"_ => ParsedSymbol::MaybeMangled(symbol),","_ => ParsedSymbol::Demangled(symbol),")]),
('demangle partially',A,A,[(S,"Ok(Ok(())) => parse_demangled(demangling_buf.clone().into()),","Ok(_) => parse_demangled(demangling_buf.clone().into()),"),(S,"Ok(Err(_)) | Err(_) => match &*symbol {","Err(_) => match &*symbol {")]),
('string as entity',A,A,[(S,"ActivityArgumentType::String => Ok(ParsedActivityArgument::String(detail())),","ActivityArgumentType::String => { let d = detail(); if d.contains(\"::\") { Self::parse_entity(&d, parser).map(ParsedActivityArgument::CppEntity) } else { Ok(ParsedActivityArgument::String(d)) } },")]),
('entity fallback string',A,A,[(S,"Self::parse_entity(&detail(), parser).map(ParsedActivityArgument::CppEntity)","{ let d = detail(); Ok(match Self::parse_entity(&d, parser) { Ok(e) => ParsedActivityArgument::CppEntity(e), Err(_) => ParsedActivityArgument::String(d) }) }")]),
('resolve swap',A,A,[(S,"ParsedSymbol::Demangled(s) => Symbol::Demangled(s),\n            ParsedSymbol::MaybeMangled(s) => Symbol::MaybeMangled(s),","ParsedSymbol::Demangled(s) | ParsedSymbol::MaybeMangled(s) => Symbol::Demangled(s),")]),
('resolve module',A,A,[(S,"ParsedActivityArgument::Module => ActivityArgument::Module,","ParsedActivityArgument::Module => ActivityArgument::String(\"[module]\"),")]),
('REF match',A,'-',[(S,'''                if &*detail == "[module]" {
                    Ok(ParsedActivityArgument::Module)
                } else {
                    Ok(ParsedActivityArgument::FilePath(
                        parser.try_intern_path(&detail)?,
                    ))
                }''','''                match &*detail {
                    "[module]" => Ok(ParsedActivityArgument::Module),
                    path => parser.try_intern_path(path).map(ParsedActivityArgument::FilePath).map_err(ActivityArgumentError::from),
                }''')]),
('REF strip',A,'-',[(S,'''        if symbol.starts_with('(') && symbol.ends_with(')') {
            symbol = Rc::from(&symbol[1..symbol.len() - 1]);
        }''','''        let len = symbol.len();
        if symbol.ends_with(')') && symbol.starts_with('(') {
            let inner = &symbol[1..len - 1];
            symbol = inner.into();
        }''')]),
('REF strip_prefix',A,'-',[(S,'''        if symbol.starts_with('(') && symbol.ends_with(')') {
            symbol = Rc::from(&symbol[1..symbol.len() - 1]);
        }''','''        if let Some(inner) = symbol.strip_prefix('(').and_then(|s| s.strip_suffix(')')) {
            symbol = Rc::from(inner);
        }''')]),
('REF loop',A,'-',[(S,'''        if &*loop_name == "<unnamed loop>" {
            Ok(())
        } else {
            let loop_name: &str = &loop_name;
            Err(ActivityArgumentError::UnexpectedLoopName(loop_name.into()))
        }''','''        match &*loop_name {
            "<unnamed loop>" => Ok(()),
            other => Err(ActivityArgumentError::UnexpectedLoopName(other.into())),
        }''')]),
('REF no cells',A,'-',[(S,'''        let detail = RefCell::new(self.detail);
        let has_detail = || detail.borrow().is_some();
        let detail_opt = || detail.borrow_mut().take();
        let detail = || detail_opt().expect("Presence should be checked upstream");''','''        let mut raw = self.detail;
        let has = raw.is_some();
        let has_detail = || has;
        let _ = &mut raw;
        let detail_opt = || raw.clone();
        let detail = || detail_opt().expect("Presence should be checked upstream");
        let _ = RefCell::new(());''')]),
('REF demangle match',A,'-',[(S,'''            if let Ok(parsed) = Self::parse_entity(&entity, parser) {
                ParsedSymbol::Parsed(parsed)
            } else {
                ParsedSymbol::Demangled(entity)
            }''','''            Self::parse_entity(&entity, parser).map_or_else(|_| ParsedSymbol::Demangled(entity.clone()), ParsedSymbol::Parsed)''')]),
('REF question',A,'-',[(S,'''            ActivityArgumentType::CppEntity => {
                Self::parse_entity(&detail(), parser).map(ParsedActivityArgument::CppEntity)
            }''','''            ActivityArgumentType::CppEntity => {
                let key = Self::parse_entity(&detail(), parser)?;
                Ok(ParsedActivityArgument::CppEntity(key))
            }''')]),
]
