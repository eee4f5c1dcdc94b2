L='clang-time-trace/src/lib.rs'; ST='clang-time-trace/src/stats/activity/mod.rs'; G='clang-time-trace/src/stats/global.rs'; TR='clang-time-trace/src/tree.rs'
PRE='''use clang_time_trace::*;
fn trace(events: &str) -> Result<ClangTrace, ClangTraceParseError> {
    format!("{{\\"traceEvents\\":[{events}{{\\"cat\\":\\"\\",\\"pid\\":9,\\"tid\\":9,\\"ts\\":0,\\"ph\\":\\"M\\",\\"name\\":\\"process_name\\",\\"args\\":{{\\"name\\":\\"clang\\"}}}}]}}").parse()
}
fn act(pid: u32, ts: f64, dur: f64, name: &str, args: &str) -> String {
    format!("{{\\"pid\\":{pid},\\"tid\\":{pid},\\"ph\\":\\"X\\",\\"ts\\":{ts},\\"dur\\":{dur},\\"name\\":\\"{name}\\"{args}}},")
}
fn src(ts: f64, dur: f64) -> String {
    act(9, ts, dur, "Source", ",\\"args\\":{\\"detail\\":\\"/a.h\\"}")
}
fn main() {
    let ok = demo();
    println!("{}", if ok { "as expected" } else { "VIOLATED" });
    std::process::exit(if ok { 0 } else { 1 })
}
'''
S=[
dict(id='t01-pid-order',prop='T01',needs='a trace in which some event has process identifier 0 although the others have another one',
 breaks='events of another process are accepted as part of the trace',
 edits=[(L,'''                (Some(pid1), pid2) if pid1 == pid2 => Ok(()),
''','''                (Some(pid1), pid2) if pid1 == pid2 => Ok(()),
                // Not provided by this event
                (Some(_), 0) => Ok(()),
''')],
 deps=['clang-time-trace'],main=PRE+'''
fn demo() -> bool {
    let ok = act(9, 100.0, 5.0, "Frontend", "") + &act(9, 100.0, 10.0, "Frontend", "");
    let bad = act(9, 100.0, 5.0, "Frontend", "") + &act(0, 100.0, 10.0, "Frontend", "");
    trace(&ok).is_ok() && trace(&bad).is_err()
}
'''),
dict(id='t01-stat-again',prop='T01',needs='a trace in which the same global statistic appears twice, the first time with a count of zero',
 breaks='a duplicate global statistic silently replaces the first one',
 edits=[(L,'''                    if let Some(old) = global_stats.insert(name.clone(), stat) {
''','''                    if let Some(old) = global_stats
                        .insert(name.clone(), stat)
                        .filter(|old: &GlobalStat| old.count() > 0)
                    {
''')],
 deps=['clang-time-trace'],main=PRE+'''
fn stat(count: u32) -> String {
    format!("{{\\"pid\\":9,\\"tid\\":7,\\"ph\\":\\"X\\",\\"ts\\":0,\\"dur\\":3,\\"name\\":\\"Total X\\",\\"args\\":{{\\"count\\":{count},\\"avg ms\\":1}}}},")
}
fn demo() -> bool {
    trace(&stat(0)).is_ok() && trace(&(stat(1) + &stat(2))).is_err() && trace(&(stat(0) + &stat(2))).is_err()
}
'''),
dict(id='t02-null-args',prop='T02',needs='an activity that takes no argument and has only null arguments',
 breaks='unexpected arguments of an activity are accepted and dropped',
 edits=[(ST,'''            if args.is_empty() {
                Ok(())''','''            if args.values().all(|value| value.is_null()) {
                Ok(())''')],
 deps=['clang-time-trace'],main=PRE+'''
fn demo() -> bool {
    trace(&act(9, 100.0, 5.0, "Frontend", "")).is_ok()
        && trace(&act(9, 100.0, 5.0, "Frontend", ",\\"args\\":{\\"detail\\":\\"x\\"}")).is_err()
        && trace(&act(9, 100.0, 5.0, "Frontend", ",\\"args\\":{\\"detail\\":null}")).is_err()
}
'''),
dict(id='t02-total-total',prop='T02',needs='a global statistic whose name starts with the prefix twice',
 breaks='the name of a global statistic is not the one of its event',
 edits=[(G,'''                let name = if let Some(stripped) = name.strip_prefix("Total ") {
                    stripped
                } else {
                    return Err(GlobalStatParseError::NoTotalPrefix(name));
                };
''','''                if !name.starts_with("Total ") {
                    return Err(GlobalStatParseError::NoTotalPrefix(name));
                }
                let name = name.trim_start_matches("Total ");
''')],
 deps=['clang-time-trace'],main=PRE+'''
fn demo() -> bool {
    let stat = "{\\"pid\\":9,\\"tid\\":7,\\"ph\\":\\"X\\",\\"ts\\":0,\\"dur\\":3,\\"name\\":\\"Total Total X\\",\\"args\\":{\\"count\\":1,\\"avg ms\\":1}},";
    trace(stat).unwrap().global_stats().contains_key("Total X")
}
'''),
dict(id='t03-instant-child',prop='T03',needs='an activity whose first child takes no time and starts with it',
 breaks='the search for children stops at a child of zero duration that starts at the same time as its parent, which is then not its child',
 edits=[(TR,'''            if candidate.stat.start() < start {
                if candidate.stat.end() <= start {
                    break;
                } else {
''','''            if candidate.stat.end() <= start {
                break;
            }
            if candidate.stat.start() < start {
                {
''')],
 deps=['clang-time-trace'],main=PRE+'''
fn demo() -> bool {
    let t = trace(&(src(100.0, 0.0) + &src(101.0, 2.0) + &act(9, 100.0, 10.0, "Frontend", ""))).unwrap();
    t.root_activities().count() == 1 && t.activity_trace(2).direct_children().count() == 2
}
'''),
dict(id='t03-instant-parent',prop='T03',needs='an activity with an instantaneous child, whose parent is asked for',
 breaks='an activity that takes no time is not told which activity it is a child of, although that one lists it',
 edits=[(TR,'''            candidate.parent_idx = NonZeroUsize::new(current_idx);
''','''            candidate.parent_idx =
                NonZeroUsize::new(current_idx).filter(|_| candidate.stat.duration() > 0.0);
''')],
 deps=['clang-time-trace'],main=PRE+'''
fn demo() -> bool {
    let t = trace(&(src(101.0, 0.0) + &src(104.0, 2.0) + &act(9, 100.0, 10.0, "Frontend", ""))).unwrap();
    t.activity_trace(0).parent().is_some() && t.activity_trace(1).parent().is_some()
}
'''),
]
