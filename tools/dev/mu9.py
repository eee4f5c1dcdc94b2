D='src/ui/tui/trace/display.rs'; I='src/ui/tui/init.rs'
A='U09'
M=[
('esc ge',A,A,[(I,"if num_layers == state.profile_stack.len() + state.layers_below_profile {","if num_layers >= state.profile_stack.len() + state.layers_below_profile {")]),
('esc le',A,'-',[(I,"if num_layers == state.profile_stack.len() + state.layers_below_profile {","if num_layers <= state.profile_stack.len() + state.layers_below_profile {")]),
('esc off',A,A,[(I,"if num_layers == state.profile_stack.len() + state.layers_below_profile {","if num_layers == state.profile_stack.len() + state.layers_below_profile + 1 {")]),
('esc last',A,A,[(I,"if num_layers > 1 {","if num_layers > 0 {")]),
('esc2',A,A,[(I,"if num_layers > 1 {","if num_layers > 2 {")]),
('esc noescape',A,A,[(I,"            if state.no_escape {\n                return false;\n            }\n","")]),
('esc noescape late',A,A,[(I,"            if state.no_escape {\n                return false;\n            }\n",""),(I,"                state.profile_stack.pop();\n            }\n            true","                state.profile_stack.pop();\n            }\n            !state.no_escape")]),
('esc below',A,A,[(I,"state.profile_stack.len() + state.layers_below_profile {","state.profile_stack.len() + 1 {")]),
('esc equiv',A,'-',[(I,"if num_layers == state.profile_stack.len() + state.layers_below_profile {","let profiles = state.profile_stack.len();\n            if num_layers - state.layers_below_profile == profiles && profiles > 0 {")]),
('esc truncate',A,'-',[(I,"                state.profile_stack.pop();\n","                let n = state.profile_stack.len();\n                state.profile_stack.truncate(n.saturating_sub(1));\n")]),
('bt idx',A,A,[(I,"state.profile_stack.truncate(idx + 1)","state.profile_stack.truncate(*idx)")]),
('bt idx+2',A,A,[(I,"screen.len() > idx + 1 + layers_below_profile","screen.len() > idx + 2 + layers_below_profile")]),
('bt ge',A,A,[(I,"screen.len() > idx + 1 + layers_below_profile","screen.len() >= idx + 1 + layers_below_profile")]),
('bt if',A,A,[(I,"        while screen.len() > idx + 1","        if screen.len() > idx + 1")]),
('bt nobelow',A,A,[(I,"screen.len() > idx + 1 + layers_below_profile","screen.len() > idx + 1")]),
('bt rev enumerate',A,A,[(I,"                .enumerate()\n                .rev()\n","                .rev()\n                .enumerate()\n")]),
('bt skip',A,A,[(I,"                .enumerate()\n                .rev()\n","                .skip(1)\n                .enumerate()\n                .rev()\n")]),
('bt norev',A,'-',[(I,"                .enumerate()\n                .rev()\n","                .enumerate()\n")]),
('bt loop',A,'-',[(I,"""        select.add_all(
            state
                .profile_stack
                .iter()
                .enumerate()
                .rev()
                .map(|(idx, profile)| (String::from(profile.parent_name()), idx)),
        );""","""        for (idx, profile) in state.profile_stack.iter().enumerate().rev() {
            select.add_item(profile.parent_name(), idx);
        }""")]),
('bt target var',A,'-',[(I,"""        while screen.len() > idx + 1 + layers_below_profile {
            screen.pop_layer();
        }""","""        let target = layers_below_profile + *idx + 1;
        let mut extra = screen.len().saturating_sub(target);
        loop {
            if extra == 0 { break; }
            screen.pop_layer();
            extra -= 1;
        }""")]),
('bt truncate missing',A,A,[(I,"        super::with_state(cursive, |state| state.profile_stack.truncate(idx + 1));\n","")]),
('push twice cond',A,A,[(D,"        // Set up the basic trace description footer\n","        if kind == ProfileKind::Flat { let l = state.profile_stack[profile_id].clone(); state.profile_stack.push(l); }\n")]),
('push only hier',A,A,[(D,"        state.profile_stack.push(ProfileLayer {","        if kind == ProfileKind::Hierarchical || profile_id == 0 { state.profile_stack.push(ProfileLayer {"),(D,"            parent_percent_norm,\n            kind,\n        });","            parent_percent_norm,\n            kind,\n        }); }")]),
('name after',A,A,[(D,"        let table_name: Arc<str> = format!(","        let profile_id = profile_id.min(7);\n        let table_name: Arc<str> = format!(")]),
('name const',A,A,[(D,"        let profile_id = state.profile_stack.len();\n","        let profile_id = 0;\n")]),
('norm global',A,A,[(D,"            parent_percent_norm,\n            kind,\n        });","            parent_percent_norm: state.global_percent_norm.unwrap_or(parent_percent_norm),\n            kind,\n        });")]),
('kind const',A,A,[(D,"            parent_percent_norm,\n            kind,\n        });","            parent_percent_norm,\n            kind: ProfileKind::Hierarchical,\n        });")]),
('toggle nopop',A,A,[(D,"                .profile_stack\n                .pop()\n                .expect(\"There should be a profile if this shortcut works\");","                .profile_stack\n                .last()\n                .cloned()\n                .expect(\"There should be a profile if this shortcut works\");")]),
('toggle nolayer',A,A,[(D,"        cursive.pop_layer();\n        show_profile(","        show_profile(")]),
('toggle nolayer flat',A,A,[(D,"        cursive.pop_layer();\n        show_profile(","        if matches!(kind, ProfileKind::Flat) { cursive.pop_layer(); }\n        show_profile(")]),
('toggle late',A,A,[(D,"        cursive.pop_layer();\n        show_profile(","        show_profile("),(D,"            Box::new(|_state| old_activity_infos),\n            kind,\n        )","            Box::new(|_state| old_activity_infos),\n            kind,\n        );\n        cursive.pop_layer();")]),
('toggle kind',A,A,[(D,"            ProfileKind::Hierarchical => ProfileKind::Flat,\n            ProfileKind::Flat => ProfileKind::Hierarchical,","            ProfileKind::Hierarchical => ProfileKind::Flat,\n            ProfileKind::Flat => ProfileKind::Flat,")]),
('toggle norm',A,A,[(D,"            parent_name,\n            parent_percent_norm,\n            new_activity_infos,","            parent_name,\n            { let _ = parent_percent_norm; super::percent_norm(new_activity_infos.iter().map(|a| a.duration).sum()) },\n            new_activity_infos,")]),
('toggle same infos',A,A,[(D,"            new_activity_infos,\n            Box::new(|_state| old_activity_infos),","            old_activity_infos,\n            Box::new(|_state| new_activity_infos),")]),
('toggle back new',A,A,[(D,"            new_activity_infos,\n            Box::new(|_state| old_activity_infos),","            new_activity_infos.iter().map(|a| ActivityInfo { ..*a }).collect(),\n            Box::new(move |_state| { let _ = old_activity_infos; new_activity_infos }),")]),
('toggle inline',A,'-',[(D,"        cursive.pop_layer();\n        show_profile(","        let _ = cursive.screen_mut().pop_layer();\n        show_profile(")]),
('desc name const',A,A,[(D,'let name = format!("{}{profile_id}", ActivityDescPrefix.as_ref());','let name = format!("{}{}", ActivityDescPrefix.as_ref(), profile_id.to_string().len());')]),
('desc name const2',A,A,[(D,'let name = format!("{}{profile_id}", ActivityDescPrefix.as_ref());','let _ = profile_id; let name = String::from(ActivityDescPrefix.as_ref());')]),
('layer cond',A,A,[(D,"    cursive.add_fullscreen_layer(\n","    if terminal_height == 0 { return; }\n    cursive.add_fullscreen_layer(\n")]),
('show add_layer',A,'-',[(D,"    let footer = make_footer_view(terminal_width, footer_str);\n","    let footer = make_footer_view(terminal_width, footer_str);\n    let _n = cursive.screen().len();\n")]),
]
