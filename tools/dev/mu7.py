S='src/ui/stdio.rs'; T='src/trace.rs'; D='src/ui/display/metadata.rs'; U='src/ui/mod.rs'
import os
def m(n,*e,exp='U07'): return (n,'U07',exp,list(e))
M=[
m('flat shows duration',(S,'let duration = activity_trace.self_duration();','let duration = activity_trace.duration();')),
m('tree shows self',(S,'        root.duration(),\n        duration_norm,','        root.self_duration(),\n        duration_norm,')),
m('strict threshold',(T,'duration(a) >= threshold','duration(a) > threshold')),
m('ascending',(T,'duration(a2)\n            .partial_cmp(&duration(a1))','duration(a1)\n            .partial_cmp(&duration(a2))')),
m('types ascending',(T,'d2.partial_cmp(d1)','d1.partial_cmp(d2)')),
m('wrong arg',(S,'let root_parsed_arg = crate::ui::force_parse_arg(trace, root_id);','let first = trace.root_activities().next().unwrap().id();\n    let root_parsed_arg = crate::ui::force_parse_arg(trace, first);')),
m('norm all',(S,'trace::duration_norm(trace.root_activities())','trace::duration_norm(trace.all_activities())')),
m('announce off',(S,'num_activities - num_hottest,','num_activities - num_hottest - 1,')),
m('announce le',(S,'if num_hottest < num_activities','if num_hottest + 1 < num_activities')),
m('thr swapped',(S,'args.hierarchical_threshold as Duration / 100.0','args.self_threshold as Duration / 100.0')),
m('thr swapped flat',(S,'print_flat_profile(&mut trace, duration_norm, self_threshold, max_cols)','print_flat_profile(&mut trace, duration_norm, args.hierarchical_threshold as Duration / 100.0, max_cols)')),
m('child cols',(S,'            threshold,\n            child_cols,','            threshold,\n            max_cols,')),
m('skip child',(S,'tree.with_leaves(hottest_ids.into_iter().map(make_child_tree))','tree.with_leaves(hottest_ids.into_iter().skip(1).map(make_child_tree))')),
m('drop term',(S,'''                .map(make_child_tree)
                .chain(std::iter::once(
                    Tree::new(terminator.into()).with_glyphs(palette),
                )),''','''                .map(make_child_tree),''')),
m('max cols',(S,'.map(|(width, _height)| width.min(args.max_cols))','.map(|(width, _height)| width.max(args.max_cols))')),
m('height',(S,'.map(|(width, _height)| width.min(args.max_cols))','.map(|(_width, height)| height.min(args.max_cols))')),
m('no min cols',(S,'.max(MIN_COLS)','.max(1)')),
m('error swallowed',(S,'return eprintln!("Failed to process input: {e}");','return;')),
m('parse nothing',(U,'Ok(parsed) => parsed,','Ok(_) => ParsedActivityArgument::Nothing,')),
m('pid omitted',(D,'display_more(&mut buf, format!("pid {pid}"));','let _ = pid;')),
m('date crash',(D,'''            .ok()
            .and_then(|date| date.format(&Rfc3339).ok());''','''            .ok()
            .map(|date| date.format(&Rfc3339).unwrap());''')),
m('rev',(S,'let hottest_ids = hottest.iter().map(ActivityTrace::id)','let hottest_ids = hottest.iter().rev().map(ActivityTrace::id)')),
m('one root',(S,'for root_id in root_ids {','for root_id in root_ids.into_iter().take(1) {')),
m('grand children',(S,'trace::hottest_activities(\n        root.direct_children(),','trace::hottest_activities(\n        root.all_children(),')),
m('self in children',(S,'|a| a.duration() * duration_norm,','|a| a.self_duration() * duration_norm,')),
m('parent norm',(S,'            child_id,\n            duration_norm,','            child_id,\n            1.0 / duration_norm,')),
m('types early break',(S,'if duration * duration_norm < threshold {','if duration * duration_norm <= threshold {')),
m('types count',(S,'activity_type_breakdown.len() - idx,','activity_type_breakdown.len() - idx - 1,')),
m('percent',(S,'duration * duration_norm * 100.0','duration / duration_norm * 100.0')),
m('trailer lost',(S,'write!(output, "{trailer}")','Ok(())')),
m('no retry',(S,'DisplayConfig::SingleLine { max_cols },','DisplayConfig::SingleLine { max_cols: other_cols },')),
m('type total dur',(T,'.or_default() += activity_trace.self_duration()','.or_default() += activity_trace.duration()')),
m('type assign',(T,'''        *profile
            .entry(activity_trace.activity().name().into())
            .or_default() += activity_trace.self_duration();''','''        *profile
            .entry(activity_trace.activity().name().into())
            .or_default() = activity_trace.self_duration();''')),
m('flat width',(S,'            max_cols - 2,','            max_cols,')),
m('tid lost name',(D,'if let Some(name) = trace.thread_name() {','if let (Some(name), Some(_)) = (trace.thread_name(), trace.pid()) {')),
m('no flat',(S,'    print_flat_profile(&mut trace, duration_norm, self_threshold, max_cols);\n','')),
# equivalents
m('eq fold',(T,'roots.map(|root| root.duration()).sum::<f64>()','roots.fold(0.0, |sum, root| sum + root.duration())'),exp='-'),
m('eq loop sum',(T,'let root_duration = roots.map(|root| root.duration()).sum::<f64>();','let mut root_duration = 0.0;\n    for root in roots {\n        root_duration += root.duration();\n    }'),exp='-'),
m('loop sum self',(T,'let root_duration = roots.map(|root| root.duration()).sum::<f64>();','let mut root_duration = 0.0;\n    for root in roots {\n        root_duration += root.self_duration();\n    }')),
m('loop last',(T,'let root_duration = roots.map(|root| root.duration()).sum::<f64>();','let mut root_duration = 0.0;\n    for root in roots {\n        root_duration = root.duration();\n    }')),
m('fold max',(T,'roots.map(|root| root.duration()).sum::<f64>()','roots.map(|root| root.duration()).fold(0.0, f64::max)')),
m('eq for push',(T,'''    let mut children = activities
        .filter(|a| duration(a) >= threshold)
        .collect::<Box<[_]>>();''','''    let mut children = Vec::new();
    for a in activities {
        if duration(&a) >= threshold {
            children.push(a);
        }
    }
    let mut children = children.into_boxed_slice();'''),exp='-'),
m('eq not lt',(T,'.filter(|a| duration(a) >= threshold)','.filter(|a| threshold <= duration(a))'),exp='-'),
m('eq sort_by',(T,'children.sort_unstable_by(','children.sort_by('),exp='-'),
m('eq reverse',(T,'''        duration(a2)
            .partial_cmp(&duration(a1))
            .expect("No NaNs expected in time-trace")
''','''        duration(a1)
            .partial_cmp(&duration(a2))
            .expect("No NaNs expected in time-trace")
            .reverse()
'''),exp='-'),
m('eq total_cmp',(T,'''        duration(a2)
            .partial_cmp(&duration(a1))
            .expect("No NaNs expected in time-trace")
''','''        duration(a2).total_cmp(&duration(a1))
'''),exp='-'),
m('eq for ids',(S,'for id in hottest_ids.into_iter() {','for &id in hottest_ids.iter() {'),exp='-'),
m('eq term if',(S,'if num_hottest < num_activities {','if num_hottest != num_activities {'),exp='-'),
m('eq helper',(S,'let percent = duration * duration_norm * 100.0;','let percent = percentage(duration, duration_norm);'),(S,'// FIXME: Add tests ?','fn percentage(d: Duration, n: Duration) -> f64 {\n    d * n * 100.0\n}'),exp='-'),
m('eq pushes',(S,'''        tree.with_leaves(hottest_ids.into_iter().map(make_child_tree))
''','''        for leaf in hottest_ids.into_iter().map(make_child_tree) {
            tree.push(leaf);
        }
        tree
'''),exp='-'),
m('eq if let',(S,'''    let mut trace = match ClangTrace::from_file(input) {
        Ok(trace) => trace,
        Err(e) => {
            return eprintln!("Failed to process input: {e}");
        }
    };''','''    let loaded = ClangTrace::from_file(input);
    if let Err(e) = loaded {
        eprintln!("Failed to process input: {e}");
        return;
    }
    let Ok(mut trace) = loaded else { unreachable!() };'''),exp='-'),
m('eq let else',(S,'''    let input = if let Some(input) = args.input {
        input
    } else {
        return eprintln!(''','''    let Some(input) = args.input else {
        return eprintln!('''),exp='-'),
m('eq cols',(S,'''        .saturating_sub(palette.middle_item.width() as u16)
        .saturating_sub(palette.item_indent.width() as u16);''','''        .saturating_sub((palette.middle_item.width() + palette.item_indent.width()) as u16);'''),exp='-'),
m('eq entry',(T,'''        *profile
            .entry(activity_trace.activity().name().into())
            .or_default() += activity_trace.self_duration();''','''        let total = profile
            .entry(activity_trace.activity().name().into())
            .or_insert(0.0);
        *total += activity_trace.self_duration();'''),exp='-'),
m('eq metadata',(D,'format!("pid {pid}")','["pid ".to_owned(), pid.to_string()].concat()'),exp='-'),
m('eq types idx',(S,'if duration * duration_norm < threshold {','let share = duration * duration_norm;\n        if threshold > share {'),exp='-'),
m('eq match cols',(S,'''    let max_cols = termion::terminal_size()
        .map(|(width, _height)| width.min(args.max_cols))
        .unwrap_or(args.max_cols)
        .max(MIN_COLS);''','''    let max_cols = match termion::terminal_size() {
        Ok((width, _height)) => width.min(args.max_cols),
        Err(_) => args.max_cols,
    };
    let max_cols = max_cols.max(MIN_COLS);'''),exp='-'),
m('term double',(S,'Tree::new(terminator.into()).with_glyphs(palette),','Tree::new("…".to_owned().into()).with_glyphs(palette),')),
m('eq push kids',(S,'''        tree.with_leaves(hottest_ids.into_iter().map(make_child_tree))
''','''        let mut make_child_tree = make_child_tree;
        for id in hottest_ids {
            tree.push(make_child_tree(id));
        }
        tree
'''),exp='-'),
m('loop no push',(S,'''        tree.with_leaves(hottest_ids.into_iter().map(make_child_tree))
''','''        for leaf in hottest_ids.into_iter().map(make_child_tree) {
            drop(leaf);
        }
        tree
''')),
m('eq eager num',(S,'let num_hottest = hottest_ids.len();\n    for','let num_hottest = hottest.len();\n    for'),exp='-'),
]

ids='M01,M02,M03,M04,M05,M06,M07,M08,M09,D01,D02,D03,D04,T01,T02,T03,T05,U01,U02,U03,U04,U05,U06,U07,U08,U09,U10,S01,S02,P01,P02,P03'
if os.environ.get('EQALL'): M=[(a,ids,b,d) for a,c,b,d in M if b=='-']
