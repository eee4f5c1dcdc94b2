C='src/ui/tui/create.rs'
B='src/ui/tui/build/mod.rs'
T='src/ui/tui/trace/measure.rs'
A='U03'
M=[
('manual ignores outdated',A,A,[(C,"ProductFreshness::Outdated => Some(","ProductFreshness::Outdated if manually_specified => None,\n            ProductFreshness::Outdated => Some(")]),
('nonexist none',A,A,[(C,"ProductFreshness::Nonexistent => Some(CreatePrompt::new_build_profile()),","ProductFreshness::Nonexistent if manually_specified => None, ProductFreshness::Nonexistent => Some(CreatePrompt::new_build_profile()),")]),
('unknown age recent',A,A,[(C,"unwrap_or(u64::MAX)","unwrap_or(0)")]),
('hour',A,A,[(C,"d.as_secs() / 60)","d.as_secs() / 3600)")]),
('ge',A,A,[(C,"age_mins > 0 &&","age_mins > 1 &&")]),
('or',A,A,[(C,"age_mins > 0 && !manually","age_mins > 0 || !manually")]),
('manual inverted',A,A,[(C,"&& !manually_specified","&& manually_specified")]),
('stale default true',A,A,[(C,"other_reply: \"Measure\",\n            default_means_create: false","other_reply: \"Measure\",\n            default_means_create: true")]),
('both same',A,A,[(C,"handle_reply(cursive, !self.default_means_create)","handle_reply(cursive, self.default_means_create)")]),
('labels swapped',A,A,[(C,".button(self.default_reply, handle_default_reply)\n                .button(self.other_reply, handle_other_reply)",".button(self.other_reply, handle_default_reply)\n                .button(self.default_reply, handle_other_reply)")]),
('new prompt swapped',A,A,[(C,"default_reply: \"Yes\",\n            other_reply: \"No\"","default_reply: \"No\",\n            other_reply: \"Yes\"")]),
('ask ignores',A,A,[(C,"= Some(create);","= Some(true);")]),
('ask inverted',A,A,[(C,"= Some(create);","= Some(!create);")]),
('ask no quit',A,A,[(C,"= Some(create);\n                cursive.quit();","= Some(create);\n                if create { cursive.quit(); }")]),
('ask default',A,A,[(C,".take();\n        should_create",".take();\n        should_create.or(Some(false))")]),
('quit means no',A,A,[(B,"create_prompt.ask(cursive)? {","create_prompt.ask(cursive).unwrap_or(false) {")]),
('quit means yes',A,A,[(B,"create_prompt.ask(cursive)? {","create_prompt.ask(cursive).unwrap_or(true) {")]),
('fail shows',A,A,[(B,"if !measure_profile(cursive, profile_path, compilation_database) {","if !measure_profile(cursive, profile_path, compilation_database) && !freshness.exists() {")]),
('no exists check',A,A,[(B,"} else if !freshness.exists() {","} else if false {")]),
('exists inverted',A,A,[(B,"} else if !freshness.exists() {","} else if freshness.exists() {")]),
('default measured',A,A,[(B,"measure_profile(cursive, profile_path, comp","measure_profile(cursive, default_profile_path, comp")]),
('default checked',A,A,[(B,"profile_freshness(profile_path)","profile_freshness(default_profile_path)")]),
('manual const',A,A,[(B,"CreatePrompt::from_freshness(freshness, manually_specified)","CreatePrompt::from_freshness(freshness, true)")]),
('error measured',A,A,[(B,"Err(e) => {\n            error(\n                cursive,\n                format!(\"Failed to check build profile freshness: {e}\"),\n            );\n            return None;\n        }","Err(e) => {\n            error(\n                cursive,\n                format!(\"Failed to check build profile freshness: {e}\"),\n            );\n            cmakeperf::commands::ProductFreshness::Nonexistent\n        }")]),
('wiz manual',A,A,[(T,"from_freshness(freshness, false)","from_freshness(freshness, rel_path.is_absolute())")]),
('wiz noexist',A,A,[(T,"} else if freshness.exists() {","} else {")]),
('wiz inverted',A,A,[(T,"if should_create {\n                // If so","if !should_create {\n                // If so")]),
('wiz measure anyway',A,A,[(T,"if should_create {\n                // If so","if should_create || !freshness.exists() {\n                // If so")]),
('wiz not asked',A,A,[(T,"    let create_prompt = CreatePrompt::from_freshness(freshness, false);","    let create_prompt = CreatePrompt::from_freshness(freshness, false).filter(|_| !freshness.exists());")]),
('wiz late ext',A,'-',[]) ,
('wiz other out',A,A,[(T,"trace::load::show_loader(cursive, output);\n            }\n        });","trace::load::show_loader(cursive, output.with_extension(\"bak\"));\n            }\n        });")]),
('REF match',A,'-',[(B,"        if create_prompt.ask(cursive)? {\n            if !measure_profile(cursive, profile_path, compilation_database) {\n                return None;\n            }\n        } else if !freshness.exists() {","        let answer = create_prompt.ask(cursive)?;\n        if answer && !measure_profile(cursive, profile_path, compilation_database) {\n                return None;\n        }\n        if !answer && !freshness.exists() {")]),
('REF freshness if',A,'-',[(C,"                if age_mins > 0 && !manually_specified {\n                    Some(CreatePrompt::maybe_stale_build_profile(Some(age_mins)))\n                } else {\n                    None\n                }","                let recent = age_mins < 1;\n                if manually_specified || recent {\n                    return None;\n                }\n                Some(CreatePrompt::maybe_stale_build_profile(Some(age_mins)))")]),
('REF then',A,'-',[(C,"                if age_mins > 0 && !manually_specified {\n                    Some(CreatePrompt::maybe_stale_build_profile(Some(age_mins)))\n                } else {\n                    None\n                }","                (age_mins > 0 && !manually_specified)\n                    .then(|| CreatePrompt::maybe_stale_build_profile(Some(age_mins)))")]),
('REF show',A,'-',[(C,"        let handle_other_reply =\n            move |cursive: &mut Cursive| handle_reply(cursive, !self.default_means_create);","        let other_means_create = !self.default_means_create;\n        let handle_other_reply =\n            move |cursive: &mut Cursive| (*handle_reply)(cursive, other_means_create);")]),
('REF wiz',A,'-',[(T,"            if should_create {\n                // If so, measure a new one, then display\n                start_measure(cursive, command, output.into_boxed_path());\n            } else if freshness.exists() {\n                // Otherwise, display existing profile if available\n                trace::load::show_loader(cursive, output);\n            }","            match (should_create, freshness.exists()) {\n                (true, _) => start_measure(cursive, command, output.into_boxed_path()),\n                (false, true) => trace::load::show_loader(cursive, output),\n                (false, false) => {}\n            }")]),
('REF wiz early',A,'-',[(T,"    if let Some(create_prompt) = create_prompt {\n        // Set","    if create_prompt.is_none() {\n        trace::load::show_loader(cursive, output);\n        return;\n    }\n    if let Some(create_prompt) = create_prompt {\n        // Set"),(T,"    } else {\n        // If the existing profile is good, display it right away\n        trace::load::show_loader(cursive, output);\n    }","    }")]),
('REF helper path',A,'-',[(B,"    let manually_specified = args.build_profile.is_some();\n    let profile_path = args\n        .build_profile\n        .as_ref()\n        .map(Path::new)\n        .unwrap_or(default_profile_path);","    let (profile_path, manually_specified) = match args.build_profile.as_ref() {\n        Some(path) => (Path::new(path), true),\n        None => (default_profile_path, false),\n    };")]),
]
M=[m for m in M if m[3]]
