CM='cmakeperf/src/commands.rs'; OU='cmakeperf/src/output.rs'; LD='src/ui/tui/trace/load.rs'; TR='src/trace.rs'; SQ='asylum/src/sequence.rs'
ids='M06,M07,D01,D02,D03,D04,U03,U04,U06,U07,U08,U10,S01,S02,U11'
def m(n,*e): return (n,ids,'-',list(e))
M=[
m('fresh not found helper',(CM,'''        let product_mtime = match output.metadata().and_then(|m| m.modified()) {
            Ok(mtime) => mtime,
            Err(e) if e.kind() == io::ErrorKind::NotFound => {
                return Ok(ProductFreshness::Nonexistent)
            }
            Err(other) => return Err(other),
        };
''','''        let metadata = match std::fs::metadata(output) {
            Err(e) if e.kind() == io::ErrorKind::NotFound => {
                return Ok(ProductFreshness::Nonexistent)
            }
            other => other?,
        };
        let product_mtime = metadata.modified()?;
''')),
m('fresh input helper',(CM,'            if product_mtime < input.metadata()?.modified()? {','            if mtime(input)? > product_mtime {'),(CM,'/// Build product freshness\n','/// Build product freshness\n') if 0 else (CM,'''impl FromStr for CompilationDatabase {''','''/// Last modification of a file
fn mtime(path: &Path) -> io::Result<std::time::SystemTime> {
    path.metadata()?.modified()
}

impl FromStr for CompilationDatabase {''')),
m('fresh chain',(CM,'''            if product_mtime < input.metadata()?.modified()? {''','''            let input_mtime = input.metadata()?.modified()?;
            let outdated = input_mtime > product_mtime;
            if outdated {''')),
m('from_entries loop',(CM,'''        Self(
            entries
                .into_iter()
                .map(|entry| (Box::from(entry.input()), entry))
                .collect(),
        )
''','''        let mut result = HashMap::new();
        for entry in entries {
            result.insert(Box::from(entry.input()), entry);
        }
        Self(result)
''')),
m('db load map_err',(CM,'''        let data = match std::fs::read_to_string(Self::location()) {
            Err(e) if e.kind() == io::ErrorKind::NotFound => {
                return Err(DatabaseLoadError::FileNotFound)
            }
            other => other?,
        };
        Ok(Self::from_str(&data)?)
''','''        let data = std::fs::read_to_string(Self::location()).map_err(|e| {
            if e.kind() == io::ErrorKind::NotFound {
                DatabaseLoadError::FileNotFound
            } else {
                DatabaseLoadError::IoError(e)
            }
        })?;
        Self::from_str(&data).map_err(DatabaseLoadError::from)
''')),
m('out output match',(CM,'''        if let Some(out) = self.output.as_ref() {
            return Some(out.to_path_buf());
        }
''','''        match &self.output {
            Some(out) => return Some(out.to_path_buf()),
            None => {}
        }
''')),
m('exists matches',(CM,'''        match self {
            ProductFreshness::Nonexistent => false,
            ProductFreshness::Outdated => true,
            ProductFreshness::MaybeOutdated(_age) => true,
        }
''','''        !matches!(self, ProductFreshness::Nonexistent)
''')),
m('csv collect',(OU,'''    let mut result = Vec::new();
    for unit in reader.deserialize() {
        result.push(unit?);
    }
    Ok(result)
''','''    Ok(reader.deserialize().collect::<Result<Vec<_>, _>>()?)
''')),
m('csv load let',(OU,'''        Err(e) => match e.kind() {
            csv::ErrorKind::Io(e) if e.kind() == io::ErrorKind::NotFound => {
                return Err(ProfileLoadError::FileNotFound)
            }
            _other => return Err(ProfileLoadError::ParseError(e)),
        },
        other => other?,
    };
''','''        Ok(reader) => reader,
        Err(e) => {
            let missing = matches!(e.kind(), csv::ErrorKind::Io(e) if e.kind() == io::ErrorKind::NotFound);
            return Err(if missing {
                ProfileLoadError::FileNotFound
            } else {
                e.into()
            });
        }
    };
''')),
m('wall time merged',(OU,'''        if !secs_f32.is_finite() {
            return Some(Err(secs_f32));
        }
        // Cannot''','''        // Cannot''') if 0 else (OU,'''        if !secs_f32.is_finite() {
            return Some(Err(secs_f32));
        }
''','''        let infinite = secs_f32.is_nan() || secs_f32.is_infinite();
        if infinite {
            return Some(Err(secs_f32));
        }
''')),
m('loader match',(LD,'''                        if let Err(error) = result {
                            cursive.add_layer(Dialog::info(format!(
                                "Failed to process input: {error}"
                            )));
                            return;
                        }
''','''                        match result {
                            Ok(_) => {}
                            Err(error) => {
                                let message = format!("Failed to process input: {error}");
                                return cursive.add_layer(Dialog::info(message));
                            }
                        }
''')),
m('loader extracted',(LD,'''                        let (root_activities, global_percent_norm) = with_state(cursive, |state| {
                            let root_activities = state.processing_thread.get_root_activities();
                            let global_percent_norm = super::percent_norm(
                                root_activities
                                    .iter()
                                    .map(|activity| activity.duration)
                                    .sum::<Duration>(),
                            );
                            state.global_percent_norm = Some(global_percent_norm);
                            state.display_config.reset_duration_display();
                            (root_activities, global_percent_norm)
                        });
''','''                        let root_activities = with_state(cursive, |state| state.processing_thread.get_root_activities());
                        let mut total = 0.0;
                        for activity in root_activities.iter() {
                            total += activity.duration;
                        }
                        let total: Duration = total;
                        let global_percent_norm = super::percent_norm(total);
                        with_state(cursive, |state| {
                            state.display_config.reset_duration_display();
                            state.global_percent_norm = Some(global_percent_norm);
                        });
''')),
m('abort fn',(LD,'''    let handle_abort = {
        let canceled = canceled.clone();
        move |cursive: &mut Cursive| {
            canceled.store(true, atomic::Ordering::Release);
            end_wait_for_input(cursive, state);
            if cursive.screen().is_empty() {
                cursive.quit();
            } else {
                with_state(cursive, |state| {
                    state.processing_thread = ProcessingThread::start();
                });
            }
        }
    };
''','''    let handle_abort = {
        let canceled = canceled.clone();
        move |cursive: &mut Cursive| abort(cursive, &canceled, state)
    };
'''),(LD,'''fn end_wait_for_input(''','''fn abort(cursive: &mut Cursive, canceled: &AtomicBool, state: WaitForInputState) {
    canceled.store(true, atomic::Ordering::Release);
    end_wait_for_input(cursive, state);
    let others_left = !cursive.screen().is_empty();
    if others_left {
        let thread = ProcessingThread::start();
        with_state(cursive, |state| state.processing_thread = thread);
        return;
    }
    cursive.quit();
}

fn end_wait_for_input(''')),
m('end wait for',(LD,'''    while cursive.screen().len() > old_layers {
        cursive.pop_layer();
    }
''','''    let excess = cursive.screen().len().saturating_sub(old_layers);
    for _ in 0..excess {
        cursive.pop_layer();
    }
''')),
m('canceled bool',(LD,'''                        if canceled.load(Ordering::Relaxed) {
                            atomic::fence(Ordering::Acquire);
                            return;
                        }
''','''                        let abandoned = canceled.load(Ordering::Acquire);
                        if abandoned {
                            return;
                        }
''')),
m('breakdown loop',(TR,'''        *profile
            .entry(activity_trace.activity().name().into())
            .or_default() += activity_trace.self_duration();
''','''        let name = activity_trace.activity().name();
        let total = profile.entry(name.into()).or_insert(0.0);
        *total += activity_trace.self_duration();
''')),
m('hottest vec',(TR,'''    let mut children = activities
        .filter(|a| duration(a) >= threshold)
        .collect::<Box<[_]>>();
''','''    let mut children = Vec::new();
    for activity in activities {
        if duration(&activity) >= threshold {
            children.push(activity);
        }
    }
    let mut children = children.into_boxed_slice();
''')),
m('norm fold',(TR,'roots.map(|root| root.duration()).sum::<f64>()','roots.fold(0.0, |total, root| total + root.duration())')),
m('seq intern if let',(SQ,'''        self.get_sequence_key(hash, sequence).unwrap_or_else(|| {
            let start = self.concatenated.len();
            let key = K::try_from_impl_key(start..start + sequence.len())
                .expect("Key space exhausted, must use a larger K");
            self.concatenated.extend_from_slice(sequence);
            self.insert_sequence_key(hash, key);
            key
        })
''','''        if let Some(key) = self.get_sequence_key(hash, sequence) {
            return key;
        }
        let start = self.concatenated.len();
        let end = start + sequence.len();
        let key = K::try_from_impl_key(start..end)
            .expect("Key space exhausted, must use a larger K");
        self.concatenated.extend(sequence.iter().cloned());
        self.insert_sequence_key(hash, key);
        key
''')),
m('seq entry intern',(SQ,'''        if let Some(old_key) = self.interner.get_sequence_key(hash, sequence) {
            old_key
        } else {
            self.interner.insert_sequence_key(hash, new_key);
            std::mem::forget(self);
            new_key
        }
''','''        let existing = self.interner.get_sequence_key(hash, sequence);
        match existing {
            Some(old_key) => old_key,
            None => {
                self.interner.insert_sequence_key(hash, new_key);
                std::mem::forget(self);
                new_key
            }
        }
''')),
m('seq pop',(SQ,'''        if self.interner.concatenated.len() > self.initial_concatenated_len {
            self.interner.concatenated.pop()
        } else {
            None
        }
''','''        if self.is_empty() {
            return None;
        }
        self.interner.concatenated.pop()
''')),
m('key helper',(SQ,'''        let offset = impl_key.start;
        if offset.leading_zeros() < LEN_BITS {
            return None;
        }

''','''        let offset = impl_key.start;
'''),(SQ,'''        if len >= (1 << LEN_BITS) {
            return None;
        }
''','''        let fits = offset.leading_zeros() >= LEN_BITS && len < (1 << LEN_BITS);
        if !fits {
            return None;
        }
''')) if 0 else m('key unpack',(SQ,'''        let packed = self.0.into_usize();
        let len = packed & ((1 << LEN_BITS) - 1);
        let offset = packed >> LEN_BITS;
        offset..offset + len
''','''        let packed = self.0.into_usize();
        let start = packed >> LEN_BITS;
        let mask = (1 << LEN_BITS) - 1;
        let end = start + (packed & mask);
        Range { start, end }
''')),
]
