P='src/ui/tui/processing.rs'
A='U05'; E='U06'; B='U05,U06'
DC="                    description_cache.clear();\n                    last_max_cols = max_cols;\n"
M=[
('no clear on load',B,E,[(P,"                parsed_arg_cache.clear();\n                description_cache.clear();\n","                parsed_arg_cache.clear();\n")]),
('no arg clear on load',B,E,[(P,"                parsed_arg_cache.clear();\n                description_cache.clear();\n","                description_cache.clear();\n")]),
('clear only on Ok',B,'-',[(P,"                parsed_arg_cache.clear();\n                description_cache.clear();\n",""),(P,"                    Ok(trace) => {\n","                    Ok(trace) => {\n                        parsed_arg_cache.clear();\n                        description_cache.clear();\n")]),
('clear only on Err',B,E,[(P,"                parsed_arg_cache.clear();\n                description_cache.clear();\n",""),(P,"                    Err(e) => {\n","                    Err(e) => {\n                        parsed_arg_cache.clear();\n                        description_cache.clear();\n")]),
('width no clear',B,E,[(P,DC,"                    last_max_cols = max_cols;\n")]),
('width no update',B,E,[(P,DC,"                    description_cache.clear();\n").__class__((P,DC,"                    description_cache.clear();\n                    let _ = &mut last_max_cols;\n"))]),
('width only shrink',B,E,[(P,"if max_cols != last_max_cols","if max_cols < last_max_cols")]),
('width only grow',B,E,[(P,"if max_cols != last_max_cols","if max_cols > last_max_cols")]),
('width eq',B,E,[(P,"if max_cols != last_max_cols","if max_cols == last_max_cols")]),
('width update always',B,'-',[(P,DC,"                    description_cache.clear();\n"),(P,"                // Describe the requested activities\n","                last_max_cols = max_cols;\n")]),
('width touched by other',B,E,[(P,"            Instruction::DescribeActivity { activity, max_cols } => {\n","            Instruction::DescribeActivity { activity, max_cols } => {\n                last_max_cols = max_cols;\n")]),
('multi via cache',B,A,[(P,"                        DisplayConfig::SingleLine { max_cols },","                        DisplayConfig::SingleLine { max_cols: max_cols.saturating_sub(1) },")]),
('key const',B,E,[(P,"                .entry(activity)\n                .or_insert_with(|| {\n                    let (desc","                .entry(activity & !1)\n                .or_insert_with(|| {\n                    let (desc")]),
('arg key',B,B,[(P,"        .entry(activity)\n        .or_insert_with(|| crate","        .entry(activity / 2)\n        .or_insert_with(|| crate")]),
('direct all',A,A,[(P,"activity_list(trace.activity_trace(id).direct_children())","activity_list(trace.activity_trace(id).all_children())")]),
('root all',A,A,[(P,"activity_list(trace.root_activities())","activity_list(trace.all_activities())")]),
('all skip',A,A,[(P,"activity_list(trace.all_activities())","activity_list(trace.all_activities().skip(1))")]),
('all filter',A,A,[(P,"activity_list(trace.all_activities())","activity_list(trace.all_activities().filter(|a| a.duration() > 0.0))")]),
('list rev',A,A,[(P,"activity_list(trace.activity_trace(id).direct_children())","activity_list(trace.activity_trace(id).direct_children().collect::<Vec<_>>().into_iter().rev())")]),
('dup load callback',A,A,[(P,"                    Ok(trace) => {\n                        callback(Ok(()));\n                        Some(trace)","                    Ok(trace) => {\n                        Some(trace)")]),
('load err ok',A,A,[(P,"callback(Err(e));","{ let _ = e; callback(Ok(())); }")]),
('load keeps old',A,A,[(P,"                trace = match ClangTrace","                let old = trace.take();\n                trace = match ClangTrace"),(P,"                        callback(Err(e));\n                        None","                        callback(Err(e));\n                        old")]),
('load twice keeps',A,A,[(P,"                        callback(Ok(()));\n                        Some(trace)","                        callback(Ok(()));\n                        Some(old.unwrap_or(trace))"),(P,"                trace = match ClangTrace","                let old = trace.take();\n                trace = match ClangTrace")]),
('self dur',A,A,[(P,"self_duration: activity_trace.self_duration()","self_duration: activity_trace.duration()")]),
('children none',A,A,[(P,".direct_children().next().is_some()",".direct_children().next().is_none()")]),
('children more',A,A,[(P,".direct_children().next().is_some()",".direct_children().nth(1).is_some()")]),
('children parent',A,A,[(P,".direct_children().next().is_some()",".parent().is_some()")]),
('single desc',A,A,[(P,"DisplayConfig::MultiLine {\n                            tot_cols: max_cols,\n                            header_cols: 0,","DisplayConfig::MultiLine {\n                            tot_cols: max_cols,\n                            header_cols: 1,")]),
('wrap lost',A,A,[(P,"    (OwnedStr::from(output), wrap)","    (OwnedStr::from(output), wrap && output.len() > 80)")]),
('desc notenough',A,'-',[(P,'write!(output, "…").expect("IO to a buffer shouldn\'t fail");\n            false','output.extend_from_slice("…".as_bytes());\n            false')]),
('desc extra',B,E,[(P,'    let output = std::str::from_utf8','    if wrap { output.push(b\'.\'); }\n    let output = std::str::from_utf8')]),
('desc id of other',A,A,[(P,"        activity_trace.activity().id(),\n","        activity_trace.parent().unwrap_or(trace.activity_trace(activity)).activity().id(),\n")]),
('request other id',A,A,[(P,"self.request(Instruction::GetAllChildren(id));","self.request(Instruction::GetDirectChildren(id));")]),
('request width',A,A,[(P,"            activities,\n            max_cols,\n        });","            activities,\n            max_cols: max_cols.max(10),\n        });")]),
('request width 0',A,A,[(P,"self.request(Instruction::DescribeTrace { max_cols });","self.request(Instruction::DescribeTrace { max_cols: max_cols.min(80) });")]),
('no reply if empty',A,A,[(P,"                reply(\n                    &strings,","                if activities.is_empty() { continue; }\n                reply(\n                    &strings,")]),
('reply twice',A,A,[(P,"                reply(&string, (metadata(trace, max_cols), false))","                reply(&string, (metadata(trace, max_cols), false));\n                if max_cols < 10 { reply(&string, (String::new(), false)); }")]),
('empty shortcut',A,A,[(P,"                reply(&activities, activity_list(trace.root_activities()))","                if trace.all_activities().count() < 2 { reply(&activities, Box::new([])) } else { reply(&activities, activity_list(trace.root_activities())) }")]),
('client skip',A,A,[(P,"        self.request(Instruction::DescribeActivities {","        if activities.is_empty() { return Box::new([]); }\n        self.request(Instruction::DescribeActivities {")]),
('buffer shared',B,E,[(P,"    parsed_arg_cache: &mut HashMap<ActivityTraceId, ParsedActivityArgument>,\n    activity: ActivityTraceId,\n    config","    parsed_arg_cache: &mut HashMap<ActivityTraceId, ParsedActivityArgument>,\n    output: &mut Vec<u8>,\n    activity: ActivityTraceId,\n    config"),
   (P,"    let mut output = Vec::new();\n",""),(P,"        &mut output,\n        activity_trace","        &mut *output,\n        activity_trace"),(P,"                        parsed_arg_cache,\n                        activity,\n                        DisplayConfig::S","                        parsed_arg_cache,\n                        &mut buf,\n                        activity,\n                        DisplayConfig::S"),
   (P,"    // Describe activities\n    let result","    let mut buf = Vec::new();\n    let result"),(P,"                        &mut parsed_arg_cache,\n                        activity,\n","                        &mut parsed_arg_cache,\n                        &mut Vec::new(),\n                        activity,\n")]),
('REF buffer cleared',B,'-',[(P,"    parsed_arg_cache: &mut HashMap<ActivityTraceId, ParsedActivityArgument>,\n    activity: ActivityTraceId,\n    config","    parsed_arg_cache: &mut HashMap<ActivityTraceId, ParsedActivityArgument>,\n    output: &mut Vec<u8>,\n    activity: ActivityTraceId,\n    config"),
   (P,"    let mut output = Vec::new();\n","    output.clear();\n"),(P,"        &mut output,\n        activity_trace","        &mut *output,\n        activity_trace"),(P,"                        parsed_arg_cache,\n                        activity,\n                        DisplayConfig::S","                        parsed_arg_cache,\n                        &mut buf,\n                        activity,\n                        DisplayConfig::S"),
   (P,"    // Describe activities\n    let result","    let mut buf = Vec::new();\n    let result"),(P,"                        &mut parsed_arg_cache,\n                        activity,\n","                        &mut parsed_arg_cache,\n                        &mut Vec::new(),\n                        activity,\n")]),
('REF if let cache',B,'-',[(P,"""            description_cache
                .entry(activity)
                .or_insert_with(|| {
                    let (desc, wrap) = describe_activity(
                        trace,
                        parsed_arg_cache,
                        activity,
                        DisplayConfig::SingleLine { max_cols },
                    );
                    assert!(
                        !wrap,
                        "Single-line activity descriptions should not be line-wrapped"
                    );
                    desc
                })
                .clone()
""","""            if let Some(desc) = description_cache.get(&activity) {
                return desc.clone();
            }
            let (desc, wrap): (Arc<str>, bool) = describe_activity(
                        trace,
                        parsed_arg_cache,
                        activity,
                        DisplayConfig::SingleLine { max_cols },
                    );
            assert!(!wrap);
            description_cache.insert(activity, desc.clone());
            desc
""")]),
('REF loop',B,'-',[(P,"""    iterator
        .map(|activity_trace| ActivityInfo {
            id: activity_trace.id(),
            duration: activity_trace.duration(),
            self_duration: activity_trace.self_duration(),
            has_children: activity_trace.direct_children().next().is_some(),
        })
        .collect()
""","""    let mut list = Vec::new();
    for activity_trace in iterator {
        list.push(ActivityInfo {
            id: activity_trace.id(),
            duration: activity_trace.duration(),
            self_duration: activity_trace.self_duration(),
            has_children: activity_trace.direct_children().next().is_some(),
        });
    }
    list.into_boxed_slice()
""")]),
('REF desc loop',B,'-',[(P,"    let result = activities\n        .into_vec()\n        .into_iter()\n        .map(|activity| {\n","    let mut result = Vec::with_capacity(activities.len());\n    for activity in activities.into_vec() {\n        result.push(\n"),(P,"                .clone()\n        })\n        .collect();\n","                .clone());\n    }\n    let result = result.into_boxed_slice();\n")]),
('REF recv loop',B,'-',[(P,"for instruction in instructions.iter() {","while let Ok(instruction) = instructions.recv() {")]),
('REF kids match',B,'-',[(P,".direct_children().next().is_some(),",".direct_children().count() > 0,")]),
('REF width in fn',B,'-',[(P,"                if max_cols != last_max_cols {\n"+DC+"                }\n","                invalidate(&mut description_cache, &mut last_max_cols, max_cols);\n"),(P,"/// Build a list of act","fn invalidate(cache: &mut HashMap<ActivityTraceId, Arc<str>>, last: &mut u16, now: u16) {\n    if *last == now { return; }\n    cache.clear();\n    *last = now;\n}\n\n/// Build a list of act")]),
('REF width replace',B,'-',[(P,"                if max_cols != last_max_cols {\n"+DC+"                }\n","                if std::mem::replace(&mut last_max_cols, max_cols) != max_cols {\n                    description_cache.clear();\n                }\n")]),
('REF load map',B,'-',[(P,"""                trace = match ClangTrace::from_file(path) {
                    Ok(trace) => {
                        callback(Ok(()));
                        Some(trace)
                    }
                    Err(e) => {
                        callback(Err(e));
                        None
                    }
                };
""","""                let result = ClangTrace::from_file(path);
                let (outcome, loaded) = match result {
                    Ok(trace) => (Ok(()), Some(trace)),
                    Err(e) => (Err(e), None),
                };
                trace = loaded;
                callback(outcome);
""")]),
('REF load map2',B,'-',[(P,"""                trace = match ClangTrace::from_file(path) {
                    Ok(trace) => {
                        callback(Ok(()));
                        Some(trace)
                    }
                    Err(e) => {
                        callback(Err(e));
                        None
                    }
                };
""","""                trace = None;
                let result = ClangTrace::from_file(path).map(|t| { trace = Some(t); });
                callback(result);
""")]),
]
