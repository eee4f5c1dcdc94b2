D='src/ui/tui/trace/display.rs'; T='src/ui/tui/trace/mod.rs'
A='U10'
def m(n,exp,*r): return (n,A,exp,[(D,o,w) for o,w in r])
M=[
m('id swap',A,("id: activity_info.id,","id: activity_infos[0].id,")),
m('dur',A,("                duration: activity_info.duration,","                duration: activity_info.self_duration,")),
m('self',A,("self_duration: activity_info.self_duration,","self_duration: activity_info.duration,")),
m('self diff',A,("self_duration: activity_info.self_duration,","self_duration: activity_info.duration - activity_info.self_duration,")),
m('mark swap',A,("                    if activity_info.has_children {","                    if !activity_info.has_children {")),
m('mark always',A,("                        buf.push(' ');","                        buf.push('+');")),
m('mark dur',A,("                    if activity_info.has_children {","                    if activity_info.self_duration < activity_info.duration {")),
m('mark late',A,("                    buf.push_str(&description);\n                    buf.into_boxed_str()","                    let mut b2 = String::from(&*description); b2.push_str(&buf); b2.into_boxed_str()")),
m('nodesc',A,("                    buf.push_str(&description);\n","")),
m('rev',A,("        .iter()\n        .zip(activity_descs","        .iter()\n        .rev()\n        .zip(activity_descs")),
m('filter',A,("        .iter()\n        .zip(activity_descs.into_vec())","        .iter()\n        .zip(activity_descs.into_vec())\n        .filter(|(i, _)| i.duration > 0.0)")),
m('filter before',A,("        .iter()\n        .zip(activity_descs","        .iter()\n        .filter(|i| i.duration > 0.0)\n        .zip(activity_descs")),
m('descs skip',A,(".zip(activity_descs.into_vec())",".zip(activity_descs.into_vec().into_iter().rev())")),
m('ids rev',A,("activity_infos.iter().map(|info| info.id).collect()","activity_infos.iter().rev().map(|info| info.id).collect()")),
m('ids filter',A,("activity_infos.iter().map(|info| info.id).collect()","activity_infos.iter().filter(|i| i.has_children).map(|info| info.id).collect()")),
m('zoom row',A,("    move |cursive, _row, index| {\n        // Access the hierarchical profile's table to check the selected\n        // activity and whether it has children / can be zoomed on.\n        let activity = cursive","    move |cursive, index, _row| {\n        // Access the hierarchical profile's table to check the selected\n        // activity and whether it has children / can be zoomed on.\n        let activity = cursive")),
m('select row',A,("    move |cursive, _row, index| {\n        // Access the hierarchical profile's table to check the selected\n        // activity and whether it has children / can be zoomed on.\n        let activity_trace_id","    move |cursive, index, _row| {\n        // Access the hierarchical profile's table to check the selected\n        // activity and whether it has children / can be zoomed on.\n        let activity_trace_id")),
m('zoom all',A,("                .get_direct_children(activity_trace_id)","                .get_all_children(activity_trace_id)")),
m('zoom flat direct',A,("state.processing_thread.get_all_children(activity_trace_id)","state.processing_thread.get_direct_children(activity_trace_id)")),
m('zoom flat all',A,("state.processing_thread.get_all_children(activity_trace_id)","state.processing_thread.get_all_activities()")),
m('zoom norm self',A,("stripped_description.into(), activity.duration)","stripped_description.into(), activity.self_duration)")),
m('zoom plus',A,("strip_prefix('+')?;","strip_prefix(' ')?;")),
m('zoom trim',A,("activity.description.strip_prefix('+')?;","activity.description.trim_start_matches('+');")),
m('select initial',A,("    table.set_selected_row(0);\n","    table.set_selected_row(0);\n    let first = activity_infos[0].id;\n"),(".expect(\"Selected item index should be OK\")\n        .id;",".expect(\"Selected item index should be OK\")\n        .id;\n    let _ = selected_activity; let selected_activity = first;")),
m('noinitial',A,("    // Initialize the description\n    update_description(cursive, selected_activity);","    let _ = (update_description, selected_activity);")),
m('pane nowrap',A,("                view.set_content_wrap(wrap);\n","                let _ = wrap;\n")),
m('pane invert',A,("view.set_content_wrap(wrap);","view.set_content_wrap(!wrap);")),
m('no select',A,("        .on_sort(sort_other_profiles)\n        .on_select(update_desc);","        .on_sort(sort_other_profiles);\n    let _ = update_desc;")),
m('self column',A,("                    DurationKind::Myself => self.self_duration,","                    DurationKind::Myself => self.duration,")),
m('total column',A,("                    DurationKind::Total => self.duration,","                    DurationKind::Total => self.duration - self.self_duration,")),
m('div norm',A,("data * norm.into_inner())","data / norm.into_inner())")),
m('time percent',A,("                    DurationDisplay::Time => format_duration(data),","                    DurationDisplay::Time => format_duration(self.duration),")),
m('desc cell',A,("HierarchicalColumn::Description => self.description.clone().into(),","HierarchicalColumn::Description => self.description.trim().into(),")),
m('cmp self',A,("                cmp_duration(self.self_duration, other.self_duration)","                cmp_duration(self.self_duration, other.duration)")),
m('cmp dur',A,("                cmp_duration(self.self_duration, other.self_duration)","                cmp_duration(self.duration, other.duration)")),
m('cmp rev',A,("                cmp_duration(self.self_duration, other.self_duration)","                cmp_duration(other.self_duration, self.self_duration)")),
m('cmp reverse',A,("cmp_duration(self.duration, other.duration)","cmp_duration(self.duration, other.duration).reverse()")),
m('cmp desc',A,("self.description.cmp(&other.description)","other.description.cmp(&self.description)")),
m('cmp desc len',A,("self.description.cmp(&other.description)","self.description.len().cmp(&other.description.len())")),
m('heading swap',A,('PercentageReference::Global) => "%Total"','PercentageReference::Global) => "%Parent"'),('PercentageReference::Parent) => "%Parent"','PercentageReference::Parent) => "%Total"')),
m('heading flat',A,('PercentageReference::Parent) => "Self%Par"','PercentageReference::Parent) => "Self%Tot"')),
m('heading flat2',A,("                flat_self_column_name(duration_display),","                HIERARCHICAL_SELF_COLUMN_NAME,")),
m('col kind',A,("                HierarchicalColumn::Duration(DurationKind::Total, duration_display),\n                total","                HierarchicalColumn::Duration(DurationKind::Myself, duration_display),\n                total")),
m('col flat kind',A,("                HierarchicalColumn::Duration(DurationKind::Myself, duration_display),\n                flat","                HierarchicalColumn::Duration(DurationKind::Total, duration_display),\n                flat")),
m('unit no parent',A,("            DurationDisplay::Percentage(_, PercentageReference::Parent) => DurationDisplay::Time,\n            DurationDisplay::Time","            DurationDisplay::Percentage(n, PercentageReference::Parent) if n.into_inner() > 100.0 => DurationDisplay::Time,\n            DurationDisplay::Percentage(n, PercentageReference::Parent) => DurationDisplay::Percentage(n, PercentageReference::Global),\n            DurationDisplay::Time")),
m('unit notrecorded',A,("        state.display_config.duration_display = Some(new_duration_display);\n","")),
m('unit skip',A,("    // Update all the profile layers that are currently being displayed\n    for_each_profile_layer(\n        cursive,\n        &profile_stack,","    for_each_profile_layer(\n        cursive,\n        &profile_stack[1..],")),
m('unit old',A,("            // Recreate the duration columns with the new configuration\n            match layer.kind {\n                ProfileKind::Hierarchical => table.remove_column(1),\n                ProfileKind::Flat => {}\n            }","            match layer.kind {\n                ProfileKind::Hierarchical => {}\n                ProfileKind::Flat => {}\n            }")),
m('norm not layer',A,("            *norm = profile_layer.parent_percent_norm;","            *norm = layers[0].parent_percent_norm;")),
m('norm last',A,("            *norm = profile_layer.parent_percent_norm;","            *norm = layers.last().unwrap().parent_percent_norm;")),
m('norm not parent',A,("            *norm = parent_percent_norm;","            let _ = (&norm, parent_percent_norm);")),
m('norm global layer',A,("        if let DurationDisplay::Percentage(ref mut norm, PercentageReference::Parent) =\n            &mut duration_display\n        {\n            *norm = profile_layer","        if let DurationDisplay::Percentage(ref mut norm, _) =\n            &mut duration_display\n        {\n            *norm = profile_layer")),
m('sort take',A,("            .take(num_past_views)","            .take(num_past_views.saturating_sub(1))")),
m('sort key',A,("        state.display_config.sort_config.key = column_name;\n","")),
m('sort key flat',A,("        state.display_config.sort_config.key = column_name;","        state.display_config.sort_config.key = column_name.into_flat();")),
m('sort order',A,("        state.display_config.sort_config.order[column_name as usize] = order;\n","")),
m('sort order rev',A,("order[column_name as usize] = order;","order[column_name as usize] = order.reverse();")),
m('sort order idx',A,("order[column_name as usize] = order;","order[column_name.into_flat() as usize] = order;")),
m('sort past order',A,("            table.sort_by(column, order);","            table.sort_by(column, order.reverse());")),
m('sort noflat',A,("                ProfileKind::Flat => column_name = column_name.into_flat(),\n            }\n            let column","                ProfileKind::Flat => {}\n            }\n            let column")),
m('sort swap',A,("                ProfileKind::Hierarchical => {}\n                ProfileKind::Flat => column_name","                ProfileKind::Flat => {}\n                ProfileKind::Hierarchical => column_name")),
m('init sort flat',A,("            // Constrain sort key to flat column set in flat profiles\n            sort_config.key = sort_config.key.into_flat();\n","            let _ = &mut sort_config;\n")),
m('init order 0',A,("                flat_self_column_name(duration_display),\n                |c| c.width(DURATION_WIDTH).ordering(sort_config.order[1]),","                flat_self_column_name(duration_display),\n                |c| c.width(DURATION_WIDTH).ordering(sort_config.order[0]),")),
m('init nosort',A,("    table.set_default_column(sort_config.key.into_column(duration_display));\n    table.sort();","    table.set_default_column(sort_config.key.into_column(duration_display));")),
m('init nodefault',A,("    table.set_default_column(sort_config.key.into_column(duration_display));\n","")),
('norm inf',A,A,[(T,"if norm.is_finite() { norm } else { 0.0 }","norm")]),
('norm nan',A,A,[(T,"if norm.is_finite() { norm } else { 0.0 }","if norm.is_nan() { 0.0 } else { norm }")]),
('norm ok',A,'-',[(T,"""    let norm = 100.0 / total_duration;
    Finite::<Duration>::from_inner(if norm.is_finite() { norm } else { 0.0 })""","""    if total_duration > 0.0 { Finite::<Duration>::from_inner(100.0 / total_duration) } else { Finite::<Duration>::from_inner(0.0) }""")]),
m('ok helper','-',("                    if activity_info.has_children {\n                        buf.push('+');\n                    } else {\n                        buf.push(' ');\n                    }\n","                    buf.push(marker(activity_info));\n"),("/// Construct the tabular data used","fn marker(i: &ActivityInfo) -> char { if i.has_children { '+' } else { ' ' } }\n/// Construct the tabular data used")),
m('ok format','-',("""                    let mut buf = String::new();
                    if activity_info.has_children {
                        buf.push('+');
                    } else {
                        buf.push(' ');
                    }
                    buf.push_str(&description);
                    buf.into_boxed_str()
""","""                    let mark = if activity_info.has_children { '+' } else { ' ' };
                    format!("{mark}{description}").into_boxed_str()
""")),
m('ok loop','-',("""    activity_infos
        .iter()
        .zip(activity_descs.into_vec())
        .map(|(activity_info, description)| {""","""    let mut rows = Vec::with_capacity(activity_infos.len());
    for (activity_info, description) in activity_infos.iter().zip(activity_descs.into_vec()) {"""),("""            HierarchicalData {
                id: activity_info.id,
                duration: activity_info.duration,
                self_duration: activity_info.self_duration,
                description,
            }
        })
        .collect()
""","""            rows.push(HierarchicalData {
                id: activity_info.id,
                duration: activity_info.duration,
                self_duration: activity_info.self_duration,
                description,
            });
        }
    rows
""")),
m('ok ids loop','-',("        let activity_descs = state.processing_thread.describe_activities(\n            activity_infos.iter().map(|info| info.id).collect(),","        let mut ids = Vec::with_capacity(activity_infos.len());\n        for info in activity_infos.iter() {\n            ids.push(info.id);\n        }\n        let activity_descs = state.processing_thread.describe_activities(\n            ids.into_boxed_slice(),")),
m('ok zoom starts','-',("let stripped_description = activity.description.strip_prefix('+')?;","if !activity.description.starts_with('+') { return None; }\n                let stripped_description = &activity.description[1..];")),
m('ok unit helper','-',("        let new_duration_display = match state.display_config.duration_display? {","        let current = state.display_config.duration_display?;\n        let new_duration_display = match current {")),
m('ok sort','-',("                ProfileKind::Flat => column_name = column_name.into_flat(),\n            }\n            let column = column_name.into_column","                ProfileKind::Flat => column_name = if column_name == HierarchicalColumnName::TotalDuration { HierarchicalColumnName::SelfDuration } else { column_name },\n            }\n            let column = column_name.into_column")),
m('ok cmp total','-',("            d1.partial_cmp(&d2).expect(\"time-trace shouldn't emit NaNs\")","            d1.total_cmp(&d2)")),
m('ok norm order','-',("data * norm.into_inner())","norm.into_inner() * data)")),
m('ok cell','-',("""                let data = match kind {
                    DurationKind::Total => self.duration,
                    DurationKind::Myself => self.self_duration,
                };
""","""                let data = if kind == DurationKind::Total { self.duration } else { self.self_duration };
""")),
]
