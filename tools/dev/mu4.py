L='src/ui/tui/trace/load.rs'
T='src/ui/tui/trace/measure.rs'
B='src/ui/tui/build/measure.rs'
A='U04'; E='U08'
CK="""                        if canceled.load(Ordering::Relaxed) {
                            atomic::fence(Ordering::Acquire);
                            return;
                        }

"""
END="                        end_wait_for_input(cursive, wait_state);\n"
M=[
('no check',A,A,[(L,CK,"")]),
('check inverted',A,A,[(L,"if canceled.load(Ordering::Relaxed) {","if !canceled.load(Ordering::Relaxed) {")]),
('end before check',A,A,[(L,CK,""),(L,END,END+CK)]),
('check before send',A,A,[(L,CK,""),(L,"            .start_load_trace(trace_path, move |result| {\n","            .start_load_trace(trace_path, move |result| {\n if canceled.load(Ordering::Relaxed) { return; }\n")]),
('check state no_escape',A,A,[(L,CK,"                        if with_state(cursive, |state| !state.no_escape) { return; }\n")]),
('other flag',A,A,[(L,"    (state, canceled)\n","    (state, Arc::new(AtomicBool::new(false)))\n")]),
('no end on error',A,A,[(L,END,"                        if result.is_ok() { end_wait_for_input(cursive, wait_state); }\n")]),
('error swallowed',A,A,[(L,"                            cursive.add_layer(Dialog::info(format!(\n                                \"Failed to process input: {error}\"\n                            )));\n","                            log::error!(\"{error}\");\n")]),
('error continues',A,A,[(L,"                            )));\n                            return;","                            )));")]),
('norm kept',A,A,[(L,"state.global_percent_norm = Some(global_percent_norm);","state.global_percent_norm.get_or_insert(global_percent_norm);")]),
('display kept',A,A,[(L,"                            state.display_config.reset_duration_display();\n","")]),
('late layers',A,A,[(L,"    let layers_below_profile = cursive.screen().len();\n    with_state(cursive, |state| {\n        state.layers_below_profile = layers_below_profile;\n        state.no_escape = true;\n    });\n",""),(L,"    // Return saved Cursive state\n","    let layers_below_profile = cursive.screen().len();\n    with_state(cursive, |state| {\n        state.layers_below_profile = layers_below_profile;\n        state.no_escape = true;\n    });\n")]),
('no no_escape',A,A,[(L,"        state.no_escape = true;\n","")]),
('no reset esc',A,A,[(L,"        state.no_escape = false;\n","")]),
('no fps',A,A,[(L,"    cursive.set_fps(state.old_fps.map(u32::from).unwrap_or(0));\n","")]),
('fps const',A,A,[(L,"state.old_fps.map(u32::from).unwrap_or(0)","30")]),
('pop one more',A,A,[(L,"while cursive.screen().len() > old_layers","while cursive.screen().len() >= old_layers")]),
('pop once',A,A,[(L,"    while cursive.screen().len() > old_layers {","    if cursive.screen().len() > old_layers {")]),
('pop blindly',A,A,[(L,"    while cursive.screen().len() > old_layers {\n        cursive.pop_layer();\n    }","    cursive.pop_layer();")]),
('abort no store',A,A,[(L,"            canceled.store(true, atomic::Ordering::Release);\n","")]),
('abort store false',A,A,[(L,"canceled.store(true,","canceled.store(false,")]),
('abort no quit',A,A,[(L,"            if cursive.screen().is_empty() {\n                cursive.quit();\n            } else {","            if !cursive.screen().is_empty() {")]),
('abort no thread',A,A,[(L,"                with_state(cursive, |state| {\n                    state.processing_thread = ProcessingThread::start();\n                });\n","")]),
('abort always quit',A,A,[(L,"            if cursive.screen().is_empty() {\n","            if cursive.screen().len() < 2 {\n")]),
('abort after end only in else',A,A,[(L,"            end_wait_for_input(cursive, state);\n            if cursive","            if !cursive.screen().is_empty() { end_wait_for_input(cursive, state); }\n            if cursive")]),
('fps after',A,A,[(L,"    let old_fps = cursive.fps();\n    cursive.set_autorefresh(true);","    cursive.set_autorefresh(true);\n    let old_fps = cursive.fps();")]),
('REF order',A,'-',[(L,"    let old_fps = cursive.fps();\n    cursive.set_autorefresh(true);\n    let state = WaitForInputState { old_fps };\n",""),(L,"    let layers_below_profile = cursive.screen().len();\n","    let old_fps = cursive.fps();\n    cursive.set_autorefresh(true);\n    let state = WaitForInputState { old_fps };\n    let layers_below_profile = cursive.screen().len();\n")]),
('REF match',A,'-',[(L,"""                        if let Err(error) = result {
                            cursive.add_layer(Dialog::info(format!(
                                "Failed to process input: {error}"
                            )));
                            return;
                        }
""","""                        match result {
                            Ok(()) => {}
                            Err(error) => {
                                let dialog = Dialog::info(format!("Failed to process input: {error}"));
                                cursive.add_layer(dialog);
                                return;
                            }
                        }
""")]),
('REF loop',A,'-',[(L,"    while cursive.screen().len() > old_layers {\n        cursive.pop_layer();\n    }","    loop {\n        if cursive.screen().len() <= old_layers {\n            break;\n        }\n        cursive.pop_layer();\n    }")]),
('REF for',A,'-',[(L,"    while cursive.screen().len() > old_layers {\n        cursive.pop_layer();\n    }","    let mut layers = cursive.screen().len();\n    while layers > old_layers {\n        cursive.pop_layer();\n        layers = cursive.screen().len();\n    }")]),
('REF acquire',A,'-',[(L,CK,"                        if canceled.load(Ordering::Acquire) {\n                            return;\n                        }\n")]),
('REF helper',A,'-',[(L,CK,"                        if is_canceled(&canceled) {\n                            return;\n                        }\n"),(L,"/// Start displaying a pretty","fn is_canceled(canceled: &AtomicBool) -> bool {\n    let result = canceled.load(Ordering::Relaxed);\n    if result {\n        atomic::fence(Ordering::Acquire);\n    }\n    result\n}\n\n/// Start displaying a pretty")]),
('T no end',E,E,[(T,"        callback(cb_sink, move |cursive| end_measure(cursive, state));\n","        if !matches!(wait_result, Ok(true)) { callback(cb_sink, move |cursive| end_measure(cursive, state)); }\n")]),
('T late end',E,E,[(T,"        callback(cb_sink, move |cursive| end_measure(cursive, state));\n",""),(T,"        // Bring back our backup or","        callback(cb_sink, move |cursive| end_measure(cursive, state));\n        // Bring back our backup or"),(T,"                // Delete the backup file\n","                callback(cb_sink, move |cursive| end_measure(cursive, state));\n")]),
('T error swallowed',E,E,[(T,"        if let Some(error) = error_message {","        if let Some(error) = error_message.filter(|m| !m.contains(\"kill\")) {")]),
('T error none',E,E,[(T,"            Err(error) => Some(error),\n        };","            Err(error) => Some(error).filter(|_| false),\n        };")]),
('T pop',E,E,[(T,"while cursive.screen().len() > old_layers","while cursive.screen().len() > old_layers + 1")]),
('T esc',E,E,[(T,"        state.no_escape = false;\n        state.layers","        state.layers")]),
('T no esc',E,E,[(T,"        state.no_escape = true;\n","")]),
('T layers late',E,E,[(T,"    let layers_below_profile = cursive.screen().len();\n    with_state(cursive, |state| {\n        state.layers_below_profile = layers_below_profile;\n        state.no_escape = true;\n    });\n",""),(T,"    // Start a thread that measures","    let layers_below_profile = cursive.screen().len();\n    with_state(cursive, |state| {\n        state.layers_below_profile = layers_below_profile;\n        state.no_escape = true;\n    });\n    // Start a thread that measures")]),
('T esc early',E,E,[(T,"    // Back up the previous measurement, if any\n    let backup = match","    with_state(cursive, |state| state.no_escape = true);\n    let backup = match")]),
('T abort nothing',E,E,[(T,"move |_cursive| abort_trigger.cancel()","move |_cursive| drop(abort_trigger.clone())")]),
('T unpolled',E,E,[(T,"                    if self.canceled.load(Ordering::Relaxed) {\n                        atomic::fence(Ordering::Acquire);\n                        break wait_result;\n                    } else {\n                        continue;\n                    }","                    if self.child.id() == 0 && self.canceled.load(Ordering::Relaxed) {\n                        break wait_result;\n                    } else {\n                        continue;\n                    }")]),
('T poll inverted',E,E,[(T,"if self.canceled.load(Ordering::Relaxed) {","if !self.canceled.load(Ordering::Relaxed) {")]),
('T wait',E,E,[(T,"let wait_result = self.child.wait_timeout(RESPONSE_TIME);","let wait_result = self.child.wait().map(Some); let _ = RESPONSE_TIME;")]),
('T other flag',E,E,[(T,"let cancel_trigger = CancelTrigger(canceled.clone());","let cancel_trigger = CancelTrigger(Arc::new(AtomicBool::new(false)));")]),
('B esc',E,E,[(B,"        with_state(cursive, |state| {\n            state.no_escape = false;\n        });\n","")]),
('B fps',E,E,[(B,"        cursive.set_fps(old_fps.map(u32::from).unwrap_or(0));\n","")]),
('B noauto',E,E,[(B,"        cursive.set_autorefresh(true);\n","")]),
('B pop',E,E,[(B,"while cursive.screen().len() > layers_below_profile","while cursive.screen().len() > layers_below_profile + 1")]),
('B late layers',E,E,[(B,"        let layers_below_profile = cursive.screen().len();\n",""),(B,"        let old_fps = cursive.fps();","        let layers_below_profile = cursive.screen().len();\n        let old_fps = cursive.fps();")]),
('REF T callback',E,'-',[(T,"            // Failed to await or cancel clang\n            Err(error) => Some(error),\n        };\n\n        // We're on the failure/abort path, so start by displaying any error messages\n        if let Some(error) = error_message {","            // Failed to await or cancel clang\n            Err(error) => Some(error),\n        };\n        if error_message.is_some() {\n            let error = error_message.unwrap();")]),
('REF T loop',E,'-',[(T,"""                Ok(None) => {
                    if self.canceled.load(Ordering::Relaxed) {
                        atomic::fence(Ordering::Acquire);
                        break wait_result;
                    } else {
                        continue;
                    }
                }
                other => break other,""","""                Ok(None) if !self.canceled.load(Ordering::Acquire) => {}
                other => break other,""")]),
('REF B order',E,'-',[(B,"        while cursive.screen().len() > layers_below_profile {\n            cursive.pop_layer();\n        }\n        cursive.set_fps(old_fps.map(u32::from).unwrap_or(0));\n        with_state(cursive, |state| {\n            state.no_escape = false;\n        });","        with_state(cursive, |state| {\n            state.no_escape = false;\n        });\n        cursive.set_fps(old_fps.map_or(0, u32::from));\n        while cursive.screen().len() > layers_below_profile {\n            cursive.pop_layer();\n        }")]),
]
