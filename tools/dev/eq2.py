import os
TM='src/ui/tui/trace/measure.rs'; P='src/ui/tui/processing.rs'
ids=os.environ.get('IDS') or 'M03,M05,M06,M07,D04,U01,U02,U03,U04,U05,U06,U08,U09,U10'
def m(n,*e): return (n,ids,'-',list(e))
M=[
m('entry let else',(TM,'''    let entry = match compilation_database.entry(&abs_path) {
        Some(entry) => entry,
        None => {
            cursive''','''    let Some(entry) = compilation_database.entry(&abs_path) else {
        {
            cursive''')),
m('command fn',(TM,'''        let mut command = Command::new(clangpp);
        command.current_dir(entry.current_dir()).arg("-ftime-trace");
        if let Some(granularity) = time_trace_granularity {
            command.arg(format!("-ftime-trace-granularity={granularity}"));
        }
        for arg in entry.args() {
            command.arg(arg.as_ref());
        }
''','''        let command = clang_command(clangpp, entry, time_trace_granularity);
'''),(TM,'''/// Start measuring a clang time-trace
pub fn''','''fn clang_command(
    clangpp: &str,
    entry: &cmakeperf::commands::DatabaseEntry,
    granularity: Option<u64>,
) -> Command {
    let mut command = Command::new(clangpp);
    command.arg("-ftime-trace");
    if let Some(granularity) = granularity {
        command.arg(format!("-ftime-trace-granularity={granularity}"));
    }
    for arg in entry.args() {
        command.arg(arg.as_ref());
    }
    command.current_dir(entry.current_dir());
    command
}

/// Start measuring a clang time-trace
pub fn''')),
m('freshness question',(TM,'''            if should_create {
                // If so, measure a new one, then display
                start_measure(cursive, command, output.into_boxed_path());
            } else if freshness.exists() {
                // Otherwise, display existing profile if available
                trace::load::show_loader(cursive, output);
            }''','''            if !should_create {
                if freshness.exists() {
                    trace::load::show_loader(cursive, output);
                }
                return;
            }
            start_measure(cursive, command, output.into_boxed_path());''')),
m('prompt match',(TM,'''    if let Some(create_prompt) = create_prompt {
        // Set''','''    let Some(create_prompt) = create_prompt else {
        return trace::load::show_loader(cursive, output);
    };
    {
        // Set'''),(TM,'''    } else {
        // If the existing profile is good, display it right away
        trace::load::show_loader(cursive, output);
    }
}
''','''    }
}
''')),
m('restore helper',(TM,'''        // Bring back our backup or delete any partial output from clang
        if let Some(error) = backup.restore_or_delete() {
            callback(cb_sink, move |cursive| {
                cursive.add_layer(Dialog::info(error))
            });
        }
    });''','''        // Bring back our backup or delete any partial output from clang
        let Some(error) = backup.restore_or_delete() else {
            return;
        };
        callback(cb_sink, move |cursive| {
            cursive.add_layer(Dialog::info(error))
        });
    });''')),
m('state first',(TM,'''    let layers_below_profile = cursive.screen().len();
    with_state(cursive, |state| {
        state.layers_below_profile = layers_below_profile;
        state.no_escape = true;
    });

    // Make sure Cursive promptly takes notice of the completion callback
    let old_fps = cursive.fps();
    cursive.set_autorefresh(true);
    let state = MeasureState { old_fps };
''','''    let layers = cursive.screen().len();
    let state = MeasureState {
        old_fps: cursive.fps(),
    };
    cursive.set_autorefresh(true);
    with_state(cursive, |state| {
        state.no_escape = true;
        state.layers_below_profile = layers;
    });
''')),
m('order restore',(TM,'''        // We're on the failure/abort path, so start by displaying any error messages
        if let Some(error) = error_message {
            callback(cb_sink, move |cursive| {
                cursive.add_layer(Dialog::info(error))
            });
        }

        // Bring back our backup or delete any partial output from clang
        if let Some(error) = backup.restore_or_delete() {
            callback(cb_sink, move |cursive| {
                cursive.add_layer(Dialog::info(error))
            });
        }''','''        for error in [error_message, backup.restore_or_delete()].into_iter().flatten() {
            callback(cb_sink, move |cursive| {
                cursive.add_layer(Dialog::info(error))
            });
        }''')),
m('pop n',(TM,'''    while cursive.screen().len() > old_layers {
        cursive.pop_layer();
    }
}

/// Backup''','''    let excess = cursive.screen().len().saturating_sub(old_layers);
    for _ in 0..excess {
        cursive.pop_layer();
    }
}

/// Backup''')),
m('fps match',(TM,'cursive.set_fps(state.old_fps.map(u32::from).unwrap_or(0));','''let old_fps = match state.old_fps {
        Some(fps) => fps.get(),
        None => 0,
    };
    cursive.set_fps(old_fps);''')),
m('backup if let',(TM,'''        match std::fs::rename(&output, &backup) {
            Ok(()) => {}
            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
            Err(other) => return Err(format!("Failed to back up previous build trace: {other}")),
        }
        Ok(Self { output, backup })''','''        if let Err(e) = std::fs::rename(&output, &backup) {
            if e.kind() != io::ErrorKind::NotFound {
                return Err(format!("Failed to back up previous build trace: {e}"));
            }
        }
        Ok(Self { output, backup })''')),
m('restore steps',(TM,'''        match std::fs::rename(&self.backup, &self.output)
            .or_else(|_| std::fs::remove_file(&self.output))
        {
            Ok(()) => None,''','''        let restored = std::fs::rename(&self.backup, &self.output);
        let cleaned = if restored.is_ok() {
            restored
        } else {
            std::fs::remove_file(&self.output)
        };
        match cleaned {
            Ok(()) => None,''')),
m('cleanup',(TM,'''        match std::fs::remove_file(&self.backup) {
            Ok(()) => (self.output, None),
            Err(e) if e.kind() == io::ErrorKind::NotFound => (self.output, None),
            Err(other) => (
                self.output,
                Some(format!("Failed to remove clang trace backup: {other}")),
            ),
        }''','''        let error = match std::fs::remove_file(&self.backup) {
            Err(e) if e.kind() != io::ErrorKind::NotFound => {
                Some(format!("Failed to remove clang trace backup: {e}"))
            }
            _ => None,
        };
        (self.output, error)''')),
m('spawn map_err',(TM,'''        let child = match command
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
        {
            Ok(child) => child,
            Err(e) => {
                return Err(format!("Failed to start clang: {e}"));
            }
        };
''','''        command.stdin(Stdio::null());
        command.stdout(Stdio::piped()).stderr(Stdio::piped());
        let child = command
            .spawn()
            .map_err(|e| format!("Failed to start clang: {e}"))?;
''')),
m('wait loop',(TM,'''            let wait_result = self.child.wait_timeout(RESPONSE_TIME);
            match wait_result {
                Ok(None) => {
                    if self.canceled.load(Ordering::Relaxed) {
                        atomic::fence(Ordering::Acquire);
                        break wait_result;
                    } else {
                        continue;
                    }
                }
                other => break other,
            }
''','''            let wait_result = self.child.wait_timeout(RESPONSE_TIME);
            if !matches!(wait_result, Ok(None)) {
                break wait_result;
            }
            if self.canceled.load(Ordering::Acquire) {
                break wait_result;
            }
''')),
m('take thread',(TM,'''        if let Some(thread) = self.thread.take() {
            std::mem::drop(thread.join());
        }''','''        let thread = self.thread.take();
        let _ = thread.map(JoinHandle::join);''')),
m('request fetch helper',(P,'''    pub fn get_root_activities(&self) -> ActivityInfoList {
        self.request(Instruction::GetRootActivities);
        Self::fetch(&self.activities_receiver)
    }
''','''    pub fn get_root_activities(&self) -> ActivityInfoList {
        self.get_activities(Instruction::GetRootActivities)
    }

    fn get_activities(&self, query: Instruction) -> ActivityInfoList {
        self.request(query);
        Self::fetch(&self.activities_receiver)
    }
'''),(P,'''        self.request(Instruction::GetAllActivities);
        Self::fetch(&self.activities_receiver)
''','''        self.get_activities(Instruction::GetAllActivities)
''')),
m('load result',(P,'''                trace = match ClangTrace::from_file(path) {
                    Ok(trace) => {
                        callback(Ok(()));
                        Some(trace)
                    }
                    Err(e) => {
                        callback(Err(e));
                        None
                    }
                };''','''                let result = match ClangTrace::from_file(path) {
                    Ok(new_trace) => {
                        trace = Some(new_trace);
                        Ok(())
                    }
                    Err(e) => {
                        trace = None;
                        Err(e)
                    }
                };
                callback(result);''')),
m('clear after',(P,'''                parsed_arg_cache.clear();
                description_cache.clear();
                trace = match''','''                description_cache = HashMap::new();
                parsed_arg_cache = HashMap::new();
                trace = match''')),
m('while recv',(P,'for instruction in instructions.iter() {','while let Ok(instruction) = instructions.recv() {')),
m('for in',(P,'for instruction in instructions.iter() {','for instruction in instructions {')),
m('activity loop',(P,'''    iterator
        .map(|activity_trace| ActivityInfo {
            id: activity_trace.id(),
            duration: activity_trace.duration(),
            self_duration: activity_trace.self_duration(),
            has_children: activity_trace.direct_children().next().is_some(),
        })
        .collect()''','''    let mut list = Vec::new();
    for activity_trace in iterator {
        let has_children = activity_trace.direct_children().count() > 0;
        list.push(ActivityInfo {
            id: activity_trace.id(),
            duration: activity_trace.duration(),
            self_duration: activity_trace.self_duration(),
            has_children,
        });
    }
    list.into()''')),
m('desc loop',(P,'''    let result = activities
        .into_vec()
        .into_iter()
        .map(|activity| {
            description_cache
                .entry(activity)
                .or_insert_with(|| {
                    let (desc, wrap) = describe_activity(
                        trace,
                        parsed_arg_cache,
                        activity,
                        DisplayConfig::SingleLine { max_cols },
                    );
                    assert!(
                        !wrap,
                        "Single-line activity descriptions should not be line-wrapped"
                    );
                    desc
                })
                .clone()
        })
        .collect();
''','''    let mut result = Vec::with_capacity(activities.len());
    for &activity in activities.iter() {
        let desc = description_cache.entry(activity).or_insert_with(|| {
            let (desc, wrap) = describe_activity(
                trace,
                parsed_arg_cache,
                activity,
                DisplayConfig::SingleLine { max_cols },
            );
            assert!(!wrap);
            desc
        });
        result.push(desc.clone());
    }
    let result = result.into();
''')),
m('desc get',(P,'''            description_cache
                .entry(activity)
                .or_insert_with(|| {
                    let (desc, wrap) = describe_activity(
                        trace,
                        parsed_arg_cache,
                        activity,
                        DisplayConfig::SingleLine { max_cols },
                    );
                    assert!(
                        !wrap,
                        "Single-line activity descriptions should not be line-wrapped"
                    );
                    desc
                })
                .clone()''','''            if let Some(desc) = description_cache.get(&activity) {
                return desc.clone();
            }
            let (desc, wrap): (Arc<str>, bool) = describe_activity(
                trace,
                parsed_arg_cache,
                activity,
                DisplayConfig::SingleLine { max_cols },
            );
            assert!(!wrap);
            description_cache.insert(activity, desc.clone());
            desc''')),
]
