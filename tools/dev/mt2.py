S='clang-time-trace/src/stats/activity/mod.rs'
G='clang-time-trace/src/stats/global.rs'
N='clang-time-trace/src/metadata.rs'
A='T02'
M=[
('act pid rule',A,'T02',[(S,"} if (pid == 1 && tid == 0) || tid == pid => {","} if pid == 1 || tid == pid => {")]),
('act pid rule2',A,'T02',[(S,"} if (pid == 1 && tid == 0) || tid == pid => {","} if tid == 0 || tid == pid => {")]),
('act tdur any',A,'T02',[(S,"                tdur: None,\n                end_stack_trace: None,\n            } if (pid","                tdur: _,\n                end_stack_trace: None,\n            } if (pid")]),
('act cat any',A,'T02',[(S,"                        cat: None,","                        cat: _,")]),
('dur = dur+ts',A,'T02',[(S,"                    duration: dur,\n","                    duration: if ts > 1e12 { dur + ts } else { dur },\n")]),
('start clamp',A,'T02',[(S,"                    start: ts,\n","                    start: ts.max(0.0),\n")]),
('act error→start',A,'T02',[(S,"                    start: ts,\n                    duration: dur,","                    start: dur,\n                    duration: ts,")]),
('extra args ignored',A,'T02',[(S,'''                        if let Some(kv) = args_iter.next() {
                            Err(ArgParseError::UnexpectedKeys(collect_bad_args(
                                args_iter, kv,
                            )))
                        } else {
                            Ok(s)
                        }''','''                        let _ = &collect_bad_args;
                        Ok(s)''')]),
('empty detail rejected',A,'T02',[(S,'''                    if let json::Value::String(s) = v {
                        let s = s.into();''','''                    if let json::Value::String(s) = v {
                        if s.is_empty() { return Err(ArgParseError::MissingKey("detail")); }
                        let s: Rc<str> = s.into();''')]),
('detail trimmed',A,'T02',[(S,'''                        let s = s.into();''','''                        let s = s.trim().into();''')]),
('missing ok for all',A,'T02',[(S,'''                ActivityArgumentType::SymbolOpt | ActivityArgumentType::UnnamedLoopOpt => {''','''                ActivityArgumentType::SymbolOpt | ActivityArgumentType::UnnamedLoop | ActivityArgumentType::UnnamedLoopOpt => {'''),(S,'''                | ActivityArgumentType::Symbol
                | ActivityArgumentType::UnnamedLoop => {''','''                | ActivityArgumentType::Symbol => {''')]),
('any error as missing',A,'T02',[(S,'''                        Ok(detail_arg) => Ok(detail_arg),
                        Err(ArgParseError::MissingKey("detail")) => {''','''                        Ok(detail_arg) => Ok(detail_arg),
                        Err(ArgParseError::MissingKey("detail") | ArgParseError::UnexpectedValue(..)) => {''')]),
('nothing ignores args',A,'T02',[(S,'''            if args.is_empty() {
                Ok(())
            } else {
                Err(ArgParseError::UnexpectedKeys(args))
            }''','''            if args.is_empty() || args.contains_key("detail") {
                Ok(())
            } else {
                Err(ArgParseError::UnexpectedKeys(args))
            }''')]),
('unknown drops detail',A,'T02',[(S,'''                    log::error!("...inferred to have argument type {arg_type:?}");
                    Ok(RawActivityArgument::new(arg_type, Some(detail)))''','''                    log::error!("...inferred to have argument type {arg_type:?}");
                    Ok(RawActivityArgument::new(arg_type, Some(detail).filter(|d| d.len() < 4096)))''')]),
('unknown name',A,'T02',[(S,'''            let id = ActivityId::UnknownActivity(Box::new(name));''','''            let id = ActivityId::UnknownActivity(Box::new(name.trim_end().into()));''')]),
('infer for known',A,'T02',[(S,'''                    .map(|detail| RawActivityArgument::new(arg_type, Some(detail)))''','''                    .map(|detail| RawActivityArgument::new(if &*detail == "[module]" { ActivityArgumentType::FilePathOrModule } else { arg_type }, Some(detail)))''')]),
('name()',A,'T02',[(S,'''                if let ActivityId::UnknownActivity(name) = self {
                    &name
                } else {''','''                if let ActivityId::UnknownActivity(name) = self {
                    name.split('<').next().unwrap_or(name)
                } else {''')]),
('glob ts',A,'T02',[(G,"} if tid != 0 && ts == 0.0 => {","} if tid != 0 || ts == 0.0 => {")]),
('glob tid',A,'T02',[(G,"} if tid != 0 && ts == 0.0 => {","} if ts == 0.0 => {\n let _ = tid;")]),
('glob name',A,'T02',[(G,'''name.strip_prefix("Total ") {
                    stripped''','''name.strip_prefix("Total ") {
                    stripped.trim()''')]),
('glob no prefix',A,'T02',[(G,'''                    return Err(GlobalStatParseError::NoTotalPrefix(name));''','''                    &name''')]),
('glob count',A,'T02',[(G,"count: args.count as usize,","count: (args.count as u32) as usize + 0 * (args._avg_ms as usize),")]),
('glob swap',A,'T02',[(G,"count: args.count as usize,","count: args._avg_ms as usize,")]),
('glob extra keys',A,'T02',[(G,'''                _ => {
                    let mut remainder = HashMap::from_iter(args_iter);''','''                "min ms" | "max ms" => {}
                _ => {
                    let mut remainder = HashMap::from_iter(args_iter);''')]),
('glob bad count',A,'T02',[(G,'''                        return Err(ArgParseError::UnexpectedValue("count", v));''','''                        count = Some(v.as_f64().unwrap_or(0.0) as u64);''')]),
('glob default count',A,'T02',[(G,'''            (None, _) => Err(ArgParseError::MissingKey("count")),''','''            (None, Some(_avg_ms)) => Ok(Self { count: 1, _avg_ms }),''')]),
('glob spurious',A,'T02',[(G,'''                    if let Some(c) = v.as_u64() {''','''                    if let Some(c) = v.as_u64().filter(|c| *c < 1 << 31) {''')]),
('name ts',A,'T02',[(N,'''            && ts == 0.0
            && ((''','''            && ts >= 0.0
            && ((''')]),
('name pid',A,'T02',[(N,'''((pid == 1 && tid == Some(0)) || tid == Some(pid)) =>''','''(pid == 1 || tid == Some(pid)) =>''')]),
('tname tid',A,'T02',[(N,'''&& ts == 0.0 && pid == Some(tid) => Ok(name),''','''&& ts == 0.0 && pid.unwrap_or(tid) == tid => Ok(name),''')]),
('name extra',A,'T02',[(N,'''        } if extra.is_empty()
            && cat.0''','''        } if (extra.is_empty() || extra.len() == 1)
            && cat.0''')]),
('name cat',A,'T02',[(N,'''cat: Some(cat),
                    ts: Some(ts),
                    tts: None,
                },
        } if extra.is_empty() && cat.0.is_empty() &&''','''cat,
                    ts: Some(ts),
                    tts: None,
                },
        } if extra.is_empty() && cat.as_ref().map_or(true, |c| c.0.is_empty()) &&''')]),
('unknown type',A,'T02',[(S,'''                    let arg_type = ActivityArgumentType::infer_from_detail(&detail);
                    log::error!''','''                    let mut arg_type = ActivityArgumentType::infer_from_detail(&detail);
                    if arg_type == ActivityArgumentType::CppEntity { arg_type = ActivityArgumentType::String; }
                    log::error!''')]),
('dup key',A,'T02',[(S,'''    "ADCEPass" => (ADCEPass, Symbol),''','''    "ADCEPass" => (ADCEPass, Symbol),'''),(S,'''#[strum(to_string = $string)]''','''#[strum(serialize = $string, to_string = "Pass")]''')]),
('R guard order',A,'-',[(S,"} if (pid == 1 && tid == 0) || tid == pid => {","} if pid == tid || (tid == 0 && pid == 1) => {")]),
('R helper',A,'-',[(S,"} if (pid == 1 && tid == 0) || tid == pid => {","} if is_main_thread(pid, tid) => {"),(S,"/// What can go wrong while parsing an activity profile","fn is_main_thread(pid: i32, tid: i32) -> bool {\n    if pid == 1 && tid == 0 { return true; }\n    tid == pid\n}\n\n/// What can go wrong while parsing an activity profile")]),
('R detail remove',A,'-',[(S,'''            let mut args_iter = args.into_iter();
            let collect_bad_args = |args_iter, (k, v)| {
                let mut remainder = HashMap::from_iter(args_iter);
                remainder.insert(k, v);
                remainder.remove("detail");
                remainder
            };
            if let Some((k, v)) = args_iter.next() {
                if &*k == "detail" {
                    if let json::Value::String(s) = v {
                        let s = s.into();
                        if let Some(kv) = args_iter.next() {
                            Err(ArgParseError::UnexpectedKeys(collect_bad_args(
                                args_iter, kv,
                            )))
                        } else {
                            Ok(s)
                        }
                    } else {
                        Err(ArgParseError::UnexpectedValue("detail", v))
                    }
                } else {
                    Err(ArgParseError::UnexpectedKeys(collect_bad_args(
                        args_iter,
                        (k, v),
                    )))
                }
            } else {
                Err(ArgParseError::MissingKey("detail"))
            }''','''            let mut args = args;
            let detail = args.remove("detail");
            if !args.is_empty() {
                return Err(ArgParseError::UnexpectedKeys(args));
            }
            match detail {
                Some(json::Value::String(s)) => Ok(s.into()),
                Some(v) => Err(ArgParseError::UnexpectedValue("detail", v)),
                None => Err(ArgParseError::MissingKey("detail")),
            }''')]),
('R global for',A,'-',[(G,'''        while let Some((k, v)) = args_iter.next() {
            match &*k {
                "count" => {
                    if let Some(c) = v.as_u64() {
                        count = Some(c);
                    } else {
                        return Err(ArgParseError::UnexpectedValue("count", v));
                    }
                }''','''        while let Some((k, v)) = args_iter.next() {
            match &*k {
                "count" => {
                    let Some(c) = v.as_u64() else {
                        return Err(ArgParseError::UnexpectedValue("count", v));
                    };
                    count.replace(c);
                }''')]),
('R glob name',A,'-',[(G,'''                let name = if let Some(stripped) = name.strip_prefix("Total ") {
                    stripped
                } else {
                    return Err(GlobalStatParseError::NoTotalPrefix(name));
                };
''','''                let Some(stripped) = name.strip_prefix("Total ") else {
                    return Err(GlobalStatParseError::NoTotalPrefix(name));
                };
                let name: String = stripped.to_owned();
''')]),
('R known refactor',A,'-',[(S,'''            let args = RefCell::new(args);
            let detail_arg = || -> Result<RawActivityArgument, ArgParseError> {
                Self::parse_detail_arg(args.borrow_mut().take())
                    .map(|detail| RawActivityArgument::new(arg_type, Some(detail)))
            };''','''            let args = RefCell::new(args);
            let detail_arg = || -> Result<RawActivityArgument, ArgParseError> {
                let detail = Self::parse_detail_arg(args.take())?;
                Ok(RawActivityArgument::new(arg_type, Some(detail)))
            };''')]),
('R name match',A,'-',[(N,'''((pid == 1 && tid == Some(0)) || tid == Some(pid)) =>''','''matches!((pid, tid), (1, Some(0))) || tid.is_some_and(|tid| tid == pid) && extra.is_empty() && cat.0.is_empty() && ts == 0.0 =>''')]),
('R getter',A,'-',[(S,'''        &self.activity
    }''','''        let Self { activity, .. } = self;
        activity
    }''')]),
('R spurious stmt',A,'-',[(S,'''                let activity = Activity::parse(name, args)?;''','''                let _unused = name.len();
                let activity = match Activity::parse(name, args) { Ok(a) => a, Err(e) => return Err(e.into()) };''')]),
]
