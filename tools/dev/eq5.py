TR='clang-time-trace/src/tree.rs'; LB='clang-time-trace/src/lib.rs'; GS='clang-time-trace/src/stats/global.rs'; AC='clang-time-trace/src/stats/activity/mod.rs'; AR='clang-time-trace/src/stats/activity/argument.rs'; ME='clang-time-trace/src/metadata.rs'
ids='T01,T02,T03,T05,U07,U09,S01'
def m(n,*e): return (n,ids,'-',list(e))
M=[
m('insert loop let else',(TR,'''        while let Some((candidate, next_candidates)) = child_candidates.split_last_mut() {
            // Abort''','''        loop {
            let Some((candidate, next_candidates)) = child_candidates.split_last_mut() else { break };
            // Abort''')),
m('insert helper',(TR,'''        if end < self.last_end {
            return Err(ActivityTreeError::UnexpectedActivityOrder {
                prev: self.last_end,
                current: end,
            });
        }
        self.last_end = end;
''','''        self.check_order(end)?;
'''),(TR,'''    /// Finish building the activity tree
''','''    /// Check that activities come in order
    fn check_order(&mut self, current: Timestamp) -> Result<(), ActivityTreeError> {
        let prev = self.last_end;
        if current < prev {
            return Err(ActivityTreeError::UnexpectedActivityOrder { prev, current });
        }
        self.last_end = current;
        Ok(())
    }

    /// Finish building the activity tree
''')),
m('insert overlap first',(TR,'''            if candidate.stat.start() < start {
                if candidate.stat.end() <= start {
                    break;
                } else {
                    return Err''','''            if candidate.stat.start() < start {
                let is_sibling = candidate.stat.end() <= start;
                if is_sibling {
                    break;
                }
                {
                    return Err''')),
m('insert self duration acc',(TR,'let mut children_duration = 0.0;','let mut self_duration = activity.duration();'),(TR,'children_duration += candidate.stat.duration();','self_duration -= candidate.stat.duration();'),(TR,'''        let self_duration = activity.duration() - children_duration;
''','')),
m('build loop',(TR,'''        let mut root_candidates = &self.activities[..];
        while let Some((root, next_candidates)) = root_candidates.split_last() {
            // This is a root, add its index to our root list.
            self.children.push(next_candidates.len());

            // Skip transitive children to find the previous root
            root_candidates = &next_candidates[..root.first_related_idx];
        }
''','''        let mut end = self.activities.len();
        while end > 0 {
            // This is a root, add its index to our root list.
            let root = end - 1;
            self.children.push(root);

            // Skip transitive children to find the previous root
            end = self.activities[root].first_related_idx;
        }
''')),
m('hierarchy via activity_trace',(TR,'''            .map(move |&activity_idx| ActivityTrace {
                tree: self,
                activity: &self.activities[activity_idx],
                activity_idx,
            })''','''            .map(move |&activity_idx| self.activity_trace(activity_idx))''')),
m('all_children range',(TR,'''        self.tree.activities[first_child_idx..self.activity_idx]
            .iter()
            .enumerate()
            .map(move |(rel_child_idx, activity)| {
                let activity_idx = rel_child_idx + first_child_idx;
                ActivityTrace {
                    tree: self.tree,
                    activity,
                    activity_idx,
                }
            })''','''        (first_child_idx..self.activity_idx).map(move |idx| self.tree.activity_trace(idx))''')),
m('parent via activity_trace',(TR,'''        self.activity.parent_idx.map(|idx| {
            let idx = usize::from(idx);
            ActivityTrace {
                tree: self.tree,
                activity: &self.tree.activities[idx],
                activity_idx: idx,
            }
        })''','''        let idx = self.activity.parent_idx?.get();
        Some(self.tree.activity_trace(idx))''')),
m('read_to_string',(LB,'''        let mut profile_str = String::new();
        File::open(path)?.read_to_string(&mut profile_str)?;
''','''        let profile_str = std::fs::read_to_string(path)?;
        let _ = |mut f: File| f.read_to_string(&mut String::new());
''')),
m('merge_pid fn',(LB,'''        let merge_pid =
            |curr_pid: &mut Option<Pid>, proposed_pid: Pid| match (*curr_pid, proposed_pid) {
                (None, _) => {
                    *curr_pid = Some(proposed_pid);
                    Ok(())
                }
                (Some(pid1), pid2) if pid1 == pid2 => Ok(()),
                (Some(pid1), pid2) => Err(ClangTraceParseError::InconsistentPid(pid1, pid2)),
            };
''',''),(LB,'''/// What can go wrong while loading clang's -ftime-trace data from a file
''','''/// Check that a pid is always the same
fn merge_pid(curr_pid: &mut Option<Pid>, proposed_pid: Pid) -> Result<(), ClangTraceParseError> {
    let pid = *curr_pid.get_or_insert(proposed_pid);
    if pid != proposed_pid {
        return Err(ClangTraceParseError::InconsistentPid(pid, proposed_pid));
    }
    Ok(())
}

/// What can go wrong while loading clang's -ftime-trace data from a file
''')),
m('beginning match',(LB,'''        let beginning_of_time = if let Some(value) = profile_ctf.extra.get("beginningOfTime") {
            if let Some(f64_value) = value.as_f64() {
                Some(f64_value)
            } else {
                return Err(ClangTraceParseError::InvalidBeginningOfTime(value.clone()));
            }
        } else {
            None
        };
''','''        let beginning_of_time = profile_ctf
            .extra
            .get("beginningOfTime")
            .map(|value| {
                value
                    .as_f64()
                    .ok_or_else(|| ClangTraceParseError::InvalidBeginningOfTime(value.clone()))
            })
            .transpose()?;
''')),
m('global contains',(LB,'''                    if let Some(old) = global_stats.insert(name.clone(), stat) {
                        let new = global_stats[&name].clone();
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, new));
                    }
''','''                    if let Some(old) = global_stats.get(&name) {
                        let old = GlobalStat::clone(old);
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, stat));
                    }
                    global_stats.insert(name, stat);
''')),
m('process replace',(LB,'''                        if let Some(process_name) = process_name {
                            return Err(ClangTraceParseError::DuplicateProcessName(
                                process_name,
                                name,
                            ));
                        } else {
                            process_name = Some(name);
                        }
''','''                        if let Some(old) = process_name.replace(name.clone()) {
                            return Err(ClangTraceParseError::DuplicateProcessName(old, name));
                        }
''')),
m('thread is_some',(LB,'''                        if let Some(thread_name) = thread_name {
                            return Err(ClangTraceParseError::DuplicateThreadName(
                                thread_name,
                                name,
                            ));
                        } else {
                            thread_name = Some(name);
                        }
''','''                        match thread_name.take() {
                            None => thread_name = Some(name),
                            Some(old) => {
                                return Err(ClangTraceParseError::DuplicateThreadName(old, name))
                            }
                        }
''')),
m('x merged arms',(LB,'''                TraceEvent::X {
                    ref duration_event, ..
                } if duration_event.ts > 1.0 => {
                    // Parse activity statistics and insert the new activity
                    // into the activity tree
                    merge_pid(&mut clang_pid, duration_event.pid)?;
                    activities.insert(ActivityStat::parse(event)?)?;
                }

                // Durations associated with a lower timestamp (typically 100ns) are global stats
                TraceEvent::X {
                    ref duration_event, ..
                } => {
                    merge_pid(&mut clang_pid, duration_event.pid)?;
''','''                TraceEvent::X {
                    ref duration_event, ..
                } => {
                    merge_pid(&mut clang_pid, duration_event.pid)?;
                    if duration_event.ts > 1.0 {
                        // Parse activity statistics and insert the new activity
                        // into the activity tree
                        let stat = ActivityStat::parse(event)?;
                        activities.insert(stat)?;
                        continue;
                    }
''')),
m('noprocess ok_or',(LB,'''        if let Some(process_name) = process_name {
            Ok(Self {
                activities: activities.build(),
                entities: EntityParser::new(),
                demangling_buf: String::new(),
                global_stats,
                process_name,
                thread_name,
                pid,
                beginning_of_time,
            })
        } else {
            Err(ClangTraceParseError::NoProcessName)
        }
''','''        let process_name = process_name.ok_or(ClangTraceParseError::NoProcessName)?;
        Ok(Self {
            activities: activities.build(),
            entities: EntityParser::new(),
            demangling_buf: String::new(),
            global_stats,
            process_name,
            thread_name,
            pid,
            beginning_of_time,
        })
''')),
m('pid match',(LB,'''        let pid = clang_pid.filter(|&pid| pid > 1);
''','''        let pid = match clang_pid {
            Some(pid) if pid > 1 => Some(pid),
            _ => None,
        };
''')),
m('thread_name deref',(LB,'self.thread_name.as_ref().map(|s| s.as_ref())','self.thread_name.as_deref()')),
m('gs name else',(GS,'''                let name = if let Some(stripped) = name.strip_prefix("Total ") {
                    stripped
                } else {
                    return Err(GlobalStatParseError::NoTotalPrefix(name));
                };
''','''                let Some(stripped) = name.strip_prefix("Total ") else {
                    return Err(GlobalStatParseError::NoTotalPrefix(name));
                };
                let name = Box::<str>::from(stripped);
'''),(GS,'name.into(),\n                    Self','name,\n                    Self')),
m('gs args get',(GS,'''                    if let Some(c) = v.as_u64() {
                        count = Some(c);
                    } else {
                        return Err(ArgParseError::UnexpectedValue("count", v));
                    }
''','''                    let Some(c) = v.as_u64() else {
                        return Err(ArgParseError::UnexpectedValue("count", v));
                    };
                    count = Some(c);
''')),
m('gs args end',(GS,'''        match (count, _avg_ms) {
            (Some(count), Some(_avg_ms)) => Ok(Self { count, _avg_ms }),
            (None, _) => Err(ArgParseError::MissingKey("count")),
            (_, None) => Err(ArgParseError::MissingKey("avg ms")),
        }
''','''        let count = count.ok_or(ArgParseError::MissingKey("count"))?;
        let _avg_ms = _avg_ms.ok_or(ArgParseError::MissingKey("avg ms"))?;
        Ok(Self { count, _avg_ms })
''')),
m('act empty args',(AC,'''        if let Some(args) = args {
            if args.is_empty() {
                Ok(())
            } else {
                Err(ArgParseError::UnexpectedKeys(args))
            }
        } else {
            Ok(())
        }
    }
''','''        match args {
            Some(args) if !args.is_empty() => Err(ArgParseError::UnexpectedKeys(args)),
            _ => Ok(()),
        }
    }
''')),
m('act map_err',(AC,'''        match arg_result {
            Ok(arg) => Ok(Self { id, arg }),
            Err(e) => Err(ActivityParseError::BadArguments(id, e)),
        }
''','''        let arg = match arg_result {
            Ok(arg) => arg,
            Err(e) => return Err(ActivityParseError::BadArguments(id, e)),
        };
        Ok(Self { id, arg })
''')),
m('act opt helper',(AC,'''                    match detail_arg() {
                        Ok(detail_arg) => Ok(detail_arg),
                        Err(ArgParseError::MissingKey("detail")) => {
                            Ok(RawActivityArgument::new(arg_type, None))
                        }
                        Err(e) => Err(e),
                    }
''','''                    detail_arg().or_else(|e| match e {
                        ArgParseError::MissingKey("detail") => {
                            Ok(RawActivityArgument::new(arg_type, None))
                        }
                        e => Err(e),
                    })
''')),
m('end let',(AC,'        self.start + self.duration\n','        let (start, length) = (self.start, self.duration);\n        start + length\n')),
m('arg strip parens',(AR,'''        if symbol.starts_with('(') && symbol.ends_with(')') {
            symbol = Rc::from(&symbol[1..symbol.len() - 1]);
        }

        let demangling''','''        let stripped = symbol
            .strip_prefix('(')
            .and_then(|s| s.strip_suffix(')'))
            .map(Rc::<str>::from);
        if let Some(stripped) = stripped {
            symbol = stripped;
        }

        let demangling''')),
m('arg module match',(AR,'''                if &*detail == "[module]" {
                    Ok(ParsedActivityArgument::Module)
                } else {
                    Ok(ParsedActivityArgument::FilePath(
                        parser.try_intern_path(&detail)?,
                    ))
                }
''','''                match &*detail {
                    "[module]" => Ok(ParsedActivityArgument::Module),
                    path => Ok(ParsedActivityArgument::FilePath(parser.try_intern_path(path)?)),
                }
''')),
m('arg demangled match',(AR,'''            if let Ok(parsed) = Self::parse_entity(&entity, parser) {
                ParsedSymbol::Parsed(parsed)
            } else {
                ParsedSymbol::Demangled(entity)
            }
''','''            match Self::parse_entity(&entity, parser) {
                Ok(parsed) => ParsedSymbol::Parsed(parsed),
                Err(_) => ParsedSymbol::Demangled(entity),
            }
''')),
m('arg loop early',(AR,'''        if &*loop_name == "<unnamed loop>" {
            Ok(())
        } else {
            let loop_name: &str = &loop_name;
            Err(ActivityArgumentError::UnexpectedLoopName(loop_name.into()))
        }
''','''        if &*loop_name != "<unnamed loop>" {
            return Err(ActivityArgumentError::UnexpectedLoopName((&*loop_name).into()));
        }
        Ok(())
''')),
m('meta if',(ME,'''        } if extra.is_empty() && cat.0.is_empty() && ts == 0.0 && pid == Some(tid) => Ok(name),
''','''        } if is_plain(&cat.0, ts) && extra.is_empty() && Some(tid) == pid => Ok(name),
'''),(ME,'''/// What can go wrong while parsing a name
''','''/// Truth that there is no metadata
fn is_plain<T>(cat: &[T], ts: f64) -> bool {
    cat.len() == 0 && ts == 0.0
}

/// What can go wrong while parsing a name
''')),
]

A=(TR,'let mut children_duration = 0.0;','let mut self_duration = activity.duration();'); Z=(TR,"""        let self_duration = activity.duration() - children_duration;
""",''); X='children_duration += candidate.stat.duration();'
def bad(n,*e): return (n,'T03','T03',list(e))
BAD=1
M+=[
bad('acc self',A,(TR,X,'self_duration -= candidate.self_duration;'),Z),
bad('acc none',A,(TR,X,''),Z),
bad('acc other',A,(TR,X,'let mut other = self_duration; other -= candidate.stat.duration(); let _ = (other, &mut self_duration);'),Z),
bad('acc cond',A,(TR,X,'if candidate_idx > 0 { self_duration -= candidate.stat.duration(); }'),Z),
bad('acc start',(A[0],A[1],'let mut self_duration = activity.start();'),(TR,X,'self_duration -= candidate.stat.duration();'),Z),
]
