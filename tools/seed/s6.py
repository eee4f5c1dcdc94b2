W='cmakeperf/src/measure/worker.rs'; MM='cmakeperf/src/measure/main.rs'
exec(open('/verif/tools/seed/s5.py').read().split("def unit(")[0])
def unit(file,pkg='-p crofiler --bin crofiler'): return UNIT.replace('@FILE@',file).replace('@PKG@',pkg)
def U(file,pkg='-p crofiler --bin crofiler'): return dict(deps=[],main='fn main() {}',run=unit(file,pkg))
TM='src/ui/tui/trace/measure.rs'; BM='src/ui/tui/build/measure.rs'; LD='src/ui/tui/trace/load.rs'; CR='src/ui/tui/create.rs'
PR='src/ui/tui/processing.rs'; DI='src/ui/tui/trace/display.rs'; IN='src/ui/tui/init.rs'
SCR='''
    struct Scratch(std::path::PathBuf);
    impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
    fn scratch() -> Scratch {
        let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
'''
STATE='''
    fn dummy() -> cursive::CursiveRunnable {
        let mut cursive = cursive::dummy();
        cursive.set_user_data(crate::ui::tui::State {
            processing_thread: crate::ui::tui::processing::ProcessingThread::start(),
            global_percent_norm: None,
            profile_stack: Vec::new(),
            showing_full_build: false,
            layers_below_profile: 0,
            no_escape: false,
            trace_measurement: None,
            display_config: Default::default(),
        });
        cursive
    }
'''
def mod(body): return '\n#[cfg(test)]\nmod demo_mod {\n    use super::*;\n'+body+'\n}\n'
S=[
dict(id='u01-delete-first',prop='U01',needs='a measurement that fails before it has written any output, with a previous profile',
 breaks='the previous profile is not brought back unless the failed measurement left some output',
 edits=[(BM,'''        match std::fs::rename(backup_path, output_path)
            .or_else(|_| std::fs::remove_file(output_path))
        {''','''        match std::fs::remove_file(output_path)
            .and_then(|()| std::fs::rename(backup_path, output_path))
        {''')],unit=mod(SCR+'''
    #[test]
    fn demo_test() {
        let d = scratch();
        let (out, bak) = (d.0.join("p.csv"), d.0.join("p.bak"));
        std::fs::write(&bak, "old").unwrap();
        let mut cursive = cursive::dummy();
        MeasureHandle::restore_or_delete(&mut cursive, &bak, &out);
        assert_eq!(std::fs::read_to_string(&out).unwrap(), "old");
    }'''),**U(BM)),
dict(id='u02-signal',prop='U02',needs='a clang that is killed by a signal, such as that of the out of memory killer',
 breaks='an incomplete trace is kept, displayed, and the previous one is deleted',
 edits=[(TM,'Ok(Some(status)) if status.success() => Ok(false),','Ok(Some(status)) if status.code().unwrap_or_default() == 0 => Ok(false),')],
 unit=mod('''
    #[test]
    fn demo_test() {
        let mut command = Command::new("/bin/sh");
        command.args(["-c", "kill -9 $$"]);
        let (clang, _trigger) = CancelableClang::start(command).unwrap();
        assert!(clang.wait().is_err());
    }'''),**U(TM)),
dict(id='u02-partial',prop='U02',needs='a clang that fails after it has created the output file, and no previous trace',
 breaks='partial output of a failed clang is left in place and taken for an up to date trace later on',
 edits=[(TM,'''        match std::fs::rename(&self.backup, &self.output)
            .or_else(|_| std::fs::remove_file(&self.output))
        {''','''        match std::fs::rename(&self.backup, &self.output).or_else(|e| match e.kind() {
            io::ErrorKind::NotFound => Err(e),
            _ => std::fs::remove_file(&self.output),
        }) {''')],unit=mod(SCR+'''
    #[test]
    fn demo_test() {
        let d = scratch();
        let out = d.0.join("p.json");
        let backup = TraceBackup::new(out.clone().into_boxed_path()).unwrap();
        std::fs::write(&out, "part").unwrap();
        assert!(backup.restore_or_delete().is_none());
        assert!(!out.exists());
    }'''),**U(TM)),
dict(id='u03-unknown-age',prop='U03',needs='a product whose modification time is in the future, so that its age is unknown',
 breaks='a product of unknown age is taken for a fresh one, nobody is asked',
 edits=[(CR,'age.map(|d| d.as_secs() / 60).unwrap_or(u64::MAX)','age.map_or(0, |d| d.as_secs() / 60)')],
 unit=mod('''
    #[test]
    fn demo_test() {
        assert!(CreatePrompt::from_freshness(ProductFreshness::MaybeOutdated(None), false).is_some());
        assert!(CreatePrompt::from_freshness(ProductFreshness::MaybeOutdated(None), true).is_none());
    }'''),**U(CR)),
dict(id='u03-other-no',prop='U03',needs='no product yet, and a user who declines',
 breaks='declining the first measurement starts it',
 edits=[(CR,'handle_reply(cursive, !self.default_means_create)','handle_reply(cursive, self.other_reply == "Measure" || self.default_means_create)')],
 unit=mod('''
    #[test]
    fn demo_test() {
        for (fresh, first, second) in [(ProductFreshness::Nonexistent, true, false), (ProductFreshness::Outdated, false, true)] {
            for (keys, expected) in [(vec![], first), (vec![cursive::event::Key::Right], second)] {
                let mut cursive = cursive::dummy();
                let got = Arc::new(Mutex::new(None));
                let g = got.clone();
                CreatePrompt::from_freshness(fresh, false).unwrap().show(&mut cursive, move |_, r| *g.lock().unwrap() = Some(r));
                cursive.runner().step();
                for k in keys { cursive.on_event(cursive::event::Event::Key(k)); }
                cursive.on_event(cursive::event::Event::Key(cursive::event::Key::Enter));
                assert_eq!(*got.lock().unwrap(), Some(expected));
            }
        }
    }'''),**U(CR)),
dict(id='u04-late-check',prop='U04',needs='a load that completes after it was aborted, while the user looks at something else',
 breaks='the screens that were opened since the abort are closed when the aborted load completes',
 edits=[(LD,'''                        // Check if the load was canceled, if so do nothing
                        if canceled.load(Ordering::Relaxed) {
                            atomic::fence(Ordering::Acquire);
                            return;
                        }

                        // Restore cursive state altered by the loading screen
                        end_wait_for_input(cursive, wait_state);

''','''                        // Restore cursive state altered by the loading screen
                        end_wait_for_input(cursive, wait_state);

                        // Check if the load was canceled, if so do nothing
                        if canceled.load(Ordering::Relaxed) {
                            atomic::fence(Ordering::Acquire);
                            return;
                        }

''')],unit=mod(STATE+'''
    struct Quiet;
    impl cursive::backend::Backend for Quiet {
        fn poll_event(&mut self) -> Option<cursive::event::Event> { None }
        fn set_title(&mut self, _: String) {}
        fn refresh(&mut self) {}
        fn has_colors(&self) -> bool { false }
        fn screen_size(&self) -> cursive::Vec2 { (80, 24).into() }
        fn move_to(&self, _: cursive::Vec2) {}
        fn print(&self, _: &str) {}
        fn clear(&self, _: cursive::theme::Color) {}
        fn set_color(&self, c: cursive::theme::ColorPair) -> cursive::theme::ColorPair { c }
        fn set_effect(&self, _: cursive::theme::Effect) {}
        fn unset_effect(&self, _: cursive::theme::Effect) {}
    }

    #[test]
    fn demo_test() {
        let mut cursive = dummy();
        cursive.add_layer(Dialog::text("below"));
        show_loader(&mut cursive, "/nonexistent/trace.json");
        assert_eq!(cursive.screen().len(), 2);
        cursive.runner().step();
        cursive.on_event(cursive::event::Event::Key(cursive::event::Key::Enter));
        assert_eq!(cursive.screen().len(), 1);
        cursive.add_layer(Dialog::text("new"));
        std::thread::sleep(std::time::Duration::from_millis(500));
        {
            let mut r = cursive::CursiveRunner::new(&mut *cursive, Box::new(Quiet));
            for _ in 0..3 { r.step(); }
        }
        assert_eq!(cursive.screen().len(), 2);
    }'''),**U(LD)),
dict(id='u08-one-layer',prop='U08',needs='a dialog that is open on top of the measurement screen when the measurement ends',
 breaks='the measurement screen stays open',
 edits=[(TM,'    while cursive.screen().len() > old_layers {','    if cursive.screen().len() > old_layers {')],unit=mod(STATE+'''
    #[test]
    fn demo_test() {
        let mut cursive = dummy();
        cursive.add_layer(Dialog::text("below"));
        with_state(&mut cursive, |s| s.layers_below_profile = 1);
        cursive.add_layer(Dialog::text("measuring"));
        cursive.add_layer(Dialog::text("quit?"));
        end_measure(&mut cursive, MeasureState { old_fps: None });
        assert_eq!(cursive.screen().len(), 1);
    }'''),**U(TM)),
dict(id='u05-has-children',prop='U05',needs='an activity whose children take no time',
 breaks='activities are said to have no children',
 edits=[(PR,'has_children: activity_trace.direct_children().next().is_some(),','has_children: activity_trace.duration() > activity_trace.self_duration(),')],unit=mod(SCR+'''
    #[test]
    fn demo_test() {
        let d = scratch();
        let ev = |name: &str, ts: u32, dur: u32| format!(r#"{{"pid":9,"tid":9,"ph":"X","ts":{ts},"dur":{dur},"name":"{name}"}},"#);
        let p = d.0.join("t.json");
        std::fs::write(&p, format!(r#"{{"traceEvents":[{}{}{}{{"cat":"","pid":9,"tid":9,"ts":0,"ph":"M","name":"process_name","args":{{"name":"clang"}}}}]}}"#,
            ev("PerformPendingInstantiations", 10, 0), ev("Frontend", 9, 100), ev("ExecuteCompiler", 5, 200))).unwrap();
        let mut t = ProcessingThread::start();
        let (s, r) = mpsc::channel();
        t.start_load_trace(&p, move |res| s.send(res.map_err(|e| e.to_string())).unwrap());
        r.recv().unwrap().unwrap();
        for a in t.get_all_activities().iter() {
            assert_eq!(a.has_children, !t.get_direct_children(a.id).is_empty());
        }
    }'''),**U(PR)),
dict(id='u06-narrower',prop='U06',needs='a terminal that is made narrower, then another profile with the same activities',
 breaks='descriptions do not fit the narrower terminal',
 edits=[(PR,'if max_cols != last_max_cols {','if max_cols > last_max_cols {')],unit=mod(SCR+'''
    #[test]
    fn demo_test() {
        let d = scratch();
        let p = d.0.join("t.json");
        std::fs::write(&p, r#"{"traceEvents":[{"pid":9,"tid":9,"ph":"X","ts":5,"dur":100,"name":"Source","args":{"detail":"/a/very/long/path/that/goes/on/and/on/and/on/with/many/directories/file.hpp"}},{"cat":"","pid":9,"tid":9,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang"}}]}"#).unwrap();
        let mut t = ProcessingThread::start();
        let (s, r) = mpsc::channel();
        t.start_load_trace(&p, move |res| s.send(res.map_err(|e| e.to_string())).unwrap());
        r.recv().unwrap().unwrap();
        let ids: Box<[_]> = t.get_all_activities().iter().map(|a| a.id).collect();
        for w in [80, 40, 25, 60, 30] {
            for desc in t.describe_activities(ids.clone(), w).iter() { assert!(desc.chars().count() <= w as usize, "{desc} {w}"); }
        }
    }'''),**U(PR)),
dict(id='u06-reload',prop='U06',needs='a trace file that is measured anew and loaded again',
 breaks='arguments of the previous trace are shown for the activities of the new one',
 edits=[(PR,'    let mut last_max_cols = 0;','    let mut last_max_cols = 0;\n    let mut last_path = None;'),
  (PR,'''                parsed_arg_cache.clear();
                description_cache.clear();''','''                // No need to parse a trace's arguments twice
                description_cache.clear();
                if last_path.as_ref() != Some(&path) {
                    parsed_arg_cache.clear();
                    last_path = Some(path.clone());
                }''')],unit=mod(SCR+'''
    #[test]
    fn demo_test() {
        let d = scratch();
        let p = d.0.join("t.json");
        let mut t = ProcessingThread::start();
        for name in ["/a/first.hpp", "/a/second.hpp"] {
            std::fs::write(&p, r#"{"traceEvents":[{"pid":9,"tid":9,"ph":"X","ts":5,"dur":100,"name":"Source","args":{"detail":"NAME"}},{"cat":"","pid":9,"tid":9,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang"}}]}"#.replace("NAME", name)).unwrap();
            let (s, r) = mpsc::channel();
            t.start_load_trace(&p, move |res| s.send(res.map_err(|e| e.to_string())).unwrap());
            r.recv().unwrap().unwrap();
            let ids: Box<[_]> = t.get_all_activities().iter().map(|a| a.id).collect();
            let descs = t.describe_activities(ids.clone(), 80);
            assert!(descs[0].contains(name.rsplit('/').next().unwrap()), "{}", descs[0]);
        }
    }'''),**U(PR)),
dict(id='u09-escape-dialog',prop='U09',needs='a dialog on top of the only profile, closed with Escape',
 breaks='closing a dialog removes the profile below from the list of profiles',
 edits=[(IN,'if num_layers == state.profile_stack.len() + state.layers_below_profile {','if num_layers >= state.profile_stack.len() + state.layers_below_profile {')],
 unit='\n#[cfg(test)]\nmod demo_mod {\n    use super::*;\n'+STATE.replace('cursive::dummy()','::cursive::dummy()')+'''
    #[test]
    fn demo_test() {
        // Hitting escape at the beginning with a dialog, no profile: nothing to test. Build the state by showing a profile.
        let mut cursive = dummy();
        cursive.add_layer(Dialog::text("profile"));
        let layer = crate::ui::tui::trace::display::demo_layer();
        crate::ui::tui::with_state(&mut cursive, |s| s.profile_stack.push(layer));
        cursive.add_layer(Dialog::text("dialog"));
        exit_current_layer(&mut cursive);
        assert_eq!(cursive.screen().len(), 1);
        assert_eq!(crate::ui::tui::with_state(&mut cursive, |s| s.profile_stack.len()), 1);
    }
}
''',deps=[],main='fn main() {}',run=unit(IN).replace('CARGO_TARGET_DIR','''cat >> "$w/run/src/ui/tui/trace/display.rs" <<'EOF'
#[cfg(test)]
pub fn demo_layer() -> ProfileLayer {
    ProfileLayer { parent_name: "x".into(), table_name: "y".into(), parent_percent_norm: Finite::<Duration>::from_inner(1.0), kind: ProfileKind::Hierarchical }
}
EOF
CARGO_TARGET_DIR''',1)),
dict(id='u10-label-sort',prop='U10',needs='descriptions that differ by their first character, or a sort by description after that by time',
 breaks='rows are sorted by the length of their descriptions',
 edits=[(DI,'HierarchicalColumn::Description => self.description.cmp(&other.description),','HierarchicalColumn::Description => self\n                .description\n                .trim_start_matches(\'+\')\n                .cmp(other.description.trim_start_matches(\'+\')),')],
 unit=None),
dict(id='u10-self-percent',prop='U10',needs='percentages of the self duration in a hierarchical profile',
 breaks='percentages of children are those of the total duration',
 edits=[(DI,'''                    DurationKind::Total => self.duration,
                    DurationKind::Myself => self.self_duration,
                };
                match display {
                    DurationDisplay::Time => format_duration(data),
                    DurationDisplay::Percentage(norm, _reference) => {
                        format!("{:.2}%", data * norm.into_inner())''','''                    DurationKind::Total => self.duration,
                    DurationKind::Myself => self.self_duration,
                };
                match display {
                    DurationDisplay::Time => format_duration(data),
                    DurationDisplay::Percentage(norm, reference) => {
                        let data = match reference {
                            PercentageReference::Global => data,
                            PercentageReference::Parent => self.duration,
                        };
                        format!("{:.2}%", data * norm.into_inner())''')],unit=mod('''
    #[test]
    fn demo_test() {
        let id = { let d = std::env::temp_dir().join(format!("demo-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap();
            let p = d.join("t.json");
            std::fs::write(&p, r#"{"traceEvents":[{"pid":9,"tid":9,"ph":"X","ts":5,"dur":100,"name":"Frontend"},{"cat":"","pid":9,"tid":9,"ts":0,"ph":"M","name":"process_name","args":{"name":"clang"}}]}"#).unwrap();
            let t = clang_time_trace::ClangTrace::from_file(&p).unwrap();
            let id = t.all_activities().next().unwrap().id();
            std::fs::remove_dir_all(&d).unwrap();
            id };
        let row = HierarchicalData { id, duration: 100.0, self_duration: 25.0, description: "x".into() };
        for r in [PercentageReference::Global, PercentageReference::Parent] {
            let n = DurationDisplay::Percentage(Finite::<Duration>::from_inner(1.0), r);
            assert_eq!(row.to_column(HierarchicalColumn::Duration(DurationKind::Total, n)), "100.00%");
            assert_eq!(row.to_column(HierarchicalColumn::Duration(DurationKind::Myself, n)), "25.00%");
        }
    }'''),**U(DI)),
dict(id='p03-cross-parser',prop='P03',needs='two parsers, with different values under the same key',
 breaks='views of different entities are considered equal',
 edits=[('cpparser/src/subparsers/types/mod.rs','std::ptr::eq(self.entities, other.entities) && (self.key == other.key)','(self.key == other.key) && (*self.inner == *other.inner)')],
 unit='''
#[cfg(test)]
mod demo_mod {
    use super::*;
    #[test]
    fn demo_test() {
        let (mut p, mut q) = (EntityParser::new(), EntityParser::new());
        let a = crate::tests::unwrap_parse(p.parse_type_like("foo*"));
        let b = crate::tests::unwrap_parse(q.parse_type_like("bar*"));
        assert!(p.type_like(a) == p.type_like(a));
        assert!(p.type_like(a) != q.type_like(b));
    }
}
''',**U('cpparser/src/subparsers/types/mod.rs','-p cpparser --lib')),
dict(id='p03-empty-constructor',prop='P03',needs='a new-expression with an empty list of constructor arguments',
 breaks='value initialization is shown as default initialization',
 edits=[('cpparser/src/subparsers/operators/usage.rs','''            .constructor
            .map(|args| self.entities.function_arguments(args))''','''            .constructor
            .map(|args| self.entities.function_arguments(args))
            .filter(|args| !args.is_empty())''')],
 unit='''
#[cfg(test)]
mod demo_mod {
    use super::*;
    #[test]
    fn demo_test() {
        let mut p = EntityParser::new();
        let a = crate::tests::unwrap_parse(p.parse_type_like("foo"));
        let c = crate::tests::unwrap_parse(p.parse_function_call("()"));
        let with = |c| NewExpression { rooted: false, placement: None, ty: a, constructor: c };
        assert!(p.new_expression(with(Some(c))).constructor().is_some());
        assert!(p.new_expression(with(None)).constructor().is_none());
    }
}
''',**U('cpparser/src/subparsers/operators/usage.rs','-p cpparser --lib')),
dict(id='m09-last-worker',prop='M09',needs='memory that remains low when the last worker was stopped',
 breaks='the measurement panics instead of failing for lack of memory',
 edits=[(MM,'            if self.stop_server.num_active() == 0 {','            if new_assumed_threads == 0 {')],unit='''
#[cfg(test)]
mod demo_mod {
    use super::*;
    #[test]
    fn demo_test() {
        let monitor = Monitor::new(2);
        let mut server = monitor.server();
        assert_eq!(server.handle_oom_and_termination(u64::MAX), MonitorStatus::Running);
        assert_eq!(server.handle_oom_and_termination(0), MonitorStatus::KilledEveryone);
    }
}
''',**U(MM,'-p cmakeperf --lib')),
dict(id='m09-margin',prop='M09',needs='a decrease of the available memory by more than the margin, with several threads',
 breaks='the margin does not cover the largest decrease that was seen',
 edits=[(MM,'let new_margin_per_thread = newly_used_memory / assumed_threads + 1;','let new_margin_per_thread = newly_used_memory / (assumed_threads + 1);')],unit='''
#[cfg(test)]
mod demo_mod {
    use super::*;
    #[test]
    fn demo_test() {
        let monitor = Monitor::new(3);
        let mut server = monitor.server();
        for drop in [1_000_000_007u64, 9_000_000_001] {
            server.last_available_memory = Some(100_000_000_000);
            server.update_oom_threshold(100_000_000_000 - drop);
            assert!(server.oom_margin >= drop, "{} {drop}", server.oom_margin);
        }
    }
}
''',**U(MM,'-p cmakeperf --lib')),
]
S=[s for s in S if s.get('unit')]
