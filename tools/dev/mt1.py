L='clang-time-trace/src/lib.rs'
A='T01'
M=[
('skip unknown event',A,'T01',[(L,"                _ => return Err(ClangTraceParseError::UnexpectedEvent(event)),","                _ => log::warn!(\"Ignoring {event:?}\"),")]),
('skip unknown metadata',A,'T01',[(L,"                    _ => return Err(ClangTraceParseError::UnexpectedMetadataEvent(m)),","                    _ => {}")]),
('no pid for globals',A,'T01',[(L,'''                    merge_pid(&mut clang_pid, duration_event.pid)?;
                    let (name, stat)''','''                    let _ = duration_event;
                    let (name, stat)''')]),
('ignored pid error',A,'T01',[(L,'''                            merge_pid(&mut clang_pid, *pid)?;
                        }''','''                            let _ = merge_pid(&mut clang_pid, *pid);
                        }''')]),
('pid overwritten',A,'T01',[(L,'''                (Some(pid1), pid2) => Err(ClangTraceParseError::InconsistentPid(pid1, pid2)),''','''                (Some(pid1), pid2) if pid1 > 1 => Err(ClangTraceParseError::InconsistentPid(pid1, pid2)),
                (Some(_), pid2) => { *curr_pid = Some(pid2); Ok(()) }''')]),
('dup global',A,'T01',[(L,'''                    if let Some(old) = global_stats.insert(name.clone(), stat) {
                        let new = global_stats[&name].clone();
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, new));
                    }''','''                    global_stats.insert(name, stat);''')]),
('dup global entry',A,'T01',[(L,'''                    if let Some(old) = global_stats.insert(name.clone(), stat) {
                        let new = global_stats[&name].clone();
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, new));
                    }''','''                    global_stats.entry(name).or_insert(stat);''')]),
('dup thread',A,'T01',[(L,'''                        if let Some(thread_name) = thread_name {
                            return Err(ClangTraceParseError::DuplicateThreadName(
                                thread_name,
                                name,
                            ));
                        } else {
                            thread_name = Some(name);
                        }''','''                        thread_name.get_or_insert(name);''')]),
('dup same process ok',A,'T01',[(L,'''                        if let Some(process_name) = process_name {''','''                        if let Some(process_name) = process_name.take().filter(|p| *p != name) {''')]),
('no process name',A,'T01',[(L,'''        if let Some(process_name) = process_name {
            Ok(Self {''','''        if let Some(process_name) = process_name.or(Some("clang".into())) {
            Ok(Self {''')]),
('bot lenient',A,'T01',[(L,'''                return Err(ClangTraceParseError::InvalidBeginningOfTime(value.clone()));''','''                None''')]),
('meta partial',A,'T01',[(L,'''            traceEvents: Box::default(),
            extra: HashMap::default(),
            ..profile_ctf''','''            traceEvents: Box::default(),
            extra: HashMap::default(),
            samples: None,
            ..profile_ctf''')]),
('insert ignored',A,'T01',[(L,'''activities.insert(ActivityStat::parse(event)?)?;''','''if let Err(e) = activities.insert(ActivityStat::parse(event)?) { log::error!("{e}") }''')]),
('skip first',A,'T01',[(L,'in profile_ctf.traceEvents.into_vec() {','in profile_ctf.traceEvents.into_vec().into_iter().skip_while(|e| matches!(e, TraceEvent::B(..))) {')]),
('swapped names',A,'T01',[(L,'''                process_name,
                thread_name,
                pid,''','''                process_name: thread_name.clone().unwrap_or(process_name),
                thread_name,
                pid,''')]),
('short durations dropped',A,'T01',[(L,'''                } if duration_event.ts > 1.0 => {''','''                } if duration_event.ts > 1.0 && duration_event.name.is_none() => {}
                TraceEvent::X {
                    ref duration_event, ..
                } if duration_event.ts > 1.0 => {''')]),
('stop early',A,'T01',[(L,'''                    activities.insert(ActivityStat::parse(event)?)?;''','''                    let s = ActivityStat::parse(event)?;
                    let last = s.end() > 1e15;
                    activities.insert(s)?;
                    if last { break; }''')]),
('fromfile',A,'T01',[(L,'''        File::open(path)?.read_to_string(&mut profile_str)?;''','''        File::open(path)?.take(1 << 30).read_to_string(&mut profile_str)?;''')]),
('accessor',A,'T01',[(L,'''        self.thread_name.as_ref().map(|s| s.as_ref())''','''        self.thread_name.as_ref().map(|s| s.as_ref()).filter(|s: &&str| !s.is_empty())''')]),
('R while let',A,'-',[(L,'''        for event in profile_ctf.traceEvents.into_vec() {''','''        let mut events = profile_ctf.traceEvents.into_vec().into_iter();
        while let Some(event) = events.next() {''')]),
('R merge fn',A,'-',[(L,'''        let merge_pid =
            |curr_pid: &mut Option<Pid>, proposed_pid: Pid| match (*curr_pid, proposed_pid) {
                (None, _) => {
                    *curr_pid = Some(proposed_pid);
                    Ok(())
                }
                (Some(pid1), pid2) if pid1 == pid2 => Ok(()),
                (Some(pid1), pid2) => Err(ClangTraceParseError::InconsistentPid(pid1, pid2)),
            };''','''        fn merge_pid(curr: &mut Option<Pid>, new: Pid) -> Result<(), ClangTraceParseError> {
            let old = *curr.get_or_insert(new);
            if old != new {
                return Err(ClangTraceParseError::InconsistentPid(old, new));
            }
            Ok(())
        }''')]),
('R merge fn2',A,'-',[(L,'''        let merge_pid =
            |curr_pid: &mut Option<Pid>, proposed_pid: Pid| match (*curr_pid, proposed_pid) {
                (None, _) => {
                    *curr_pid = Some(proposed_pid);
                    Ok(())
                }
                (Some(pid1), pid2) if pid1 == pid2 => Ok(()),
                (Some(pid1), pid2) => Err(ClangTraceParseError::InconsistentPid(pid1, pid2)),
            };''','''        fn merge_pid(curr: &mut Option<Pid>, new: Pid) -> Result<(), ClangTraceParseError> {
            if let Some(old) = *curr {
                if old != new {
                    return Err(ClangTraceParseError::InconsistentPid(old, new));
                }
            }
            *curr = Some(new);
            Ok(())
        }''')]),
('R contains_key',A,'-',[(L,'''                    if let Some(old) = global_stats.insert(name.clone(), stat) {
                        let new = global_stats[&name].clone();
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, new));
                    }''','''                    if let Some(old) = global_stats.get(&name) {
                        let old: &GlobalStat = old;
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old.clone(), stat));
                    }
                    global_stats.insert(name, stat);''')]),
('R entry',A,'-',[(L,'''                    if let Some(old) = global_stats.insert(name.clone(), stat) {
                        let new = global_stats[&name].clone();
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, new));
                    }''','''                    use std::collections::hash_map::Entry;
                    let global_stats: &mut HashMap<Box<str>, GlobalStat> = &mut global_stats;
                    match global_stats.entry(name.clone()) {
                        Entry::Occupied(old) => {
                            let old: GlobalStat = old.get().clone();
                            return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, stat));
                        }
                        Entry::Vacant(slot) => { slot.insert(stat); }
                    }''')]),
('R contains2',A,'-',[(L,'''                    if let Some(old) = global_stats.insert(name.clone(), stat) {
                        let new = global_stats[&name].clone();
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, new));
                    }''','''                    let global_stats: &mut HashMap<Box<str>, GlobalStat> = &mut global_stats;
                    if global_stats.contains_key(&name) {
                        let old = global_stats[&name].clone();
                        return Err(ClangTraceParseError::DuplicateGlobalStat(name, old, stat));
                    }
                    global_stats.insert(name, stat);''')]),
('R bot',A,'-',[(L,'''        let beginning_of_time = if let Some(value) = profile_ctf.extra.get("beginningOfTime") {
            if let Some(f64_value) = value.as_f64() {
                Some(f64_value)
            } else {
                return Err(ClangTraceParseError::InvalidBeginningOfTime(value.clone()));
            }
        } else {
            None
        };''','''        let beginning_of_time = profile_ctf
            .extra
            .get("beginningOfTime")
            .map(|value| {
                value
                    .as_f64()
                    .ok_or_else(|| ClangTraceParseError::InvalidBeginningOfTime(value.clone()))
            })
            .transpose()?;''')]),
('R replace name',A,'-',[(L,'''                        if let Some(thread_name) = thread_name {
                            return Err(ClangTraceParseError::DuplicateThreadName(
                                thread_name,
                                name,
                            ));
                        } else {
                            thread_name = Some(name);
                        }''','''                        match thread_name {
                            None => thread_name = Some(name),
                            Some(old) => return Err(ClangTraceParseError::DuplicateThreadName(old, name)),
                        }''')]),
('R let else',A,'-',[(L,'''        if let Some(process_name) = process_name {
            Ok(Self {
                activities: activities.build(),
                entities: EntityParser::new(),
                demangling_buf: String::new(),
                global_stats,
                process_name,
                thread_name,
                pid,
                beginning_of_time,
            })
        } else {
            Err(ClangTraceParseError::NoProcessName)
        }''','''        let process_name = process_name.ok_or(ClangTraceParseError::NoProcessName)?;
        let activities = activities.build();
        Ok(Self {
            activities,
            entities: EntityParser::new(),
            demangling_buf: String::new(),
            global_stats,
            process_name,
            thread_name,
            pid,
            beginning_of_time,
        })''')]),
('R fs read',A,'-',[(L,'''        let mut profile_str = String::new();
        File::open(path)?.read_to_string(&mut profile_str)?;
        Ok(Self::from_str(&profile_str)?)''','''        let _: Option<(File, Box<dyn Read>)> = None;
        let profile_str = std::fs::read_to_string(path)?;
        profile_str.parse::<Self>().map_err(ClangTraceLoadError::from)''')]),
('R helper event',A,'-',[(L,'''                    merge_pid(&mut clang_pid, duration_event.pid)?;
                    activities.insert(ActivityStat::parse(event)?)?;''','''                    merge_pid(&mut clang_pid, duration_event.pid)?;
                    record(&mut activities, event)?;'''),(L,'''impl FromStr for ClangTrace {''','''fn record(activities: &mut ActivityTreeBuilder, event: TraceEvent) -> Result<(), ClangTraceParseError> {
    let stat = ActivityStat::parse(event)?;
    Ok(activities.insert(stat)?)
}

impl FromStr for ClangTrace {''')]),
]
