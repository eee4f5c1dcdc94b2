exec(open('/verif/tools/seed/s6.py').read().split("\nS=[")[0])
ST='src/ui/stdio.rs'; TR='src/trace.rs'; MD='src/ui/display/metadata.rs'
TRACE='''
    use std::str::FromStr;
    fn load(events: &str) -> clang_time_trace::ClangTrace {
        let e = events.split(';').filter(|e| !e.is_empty()).map(|e| {
            let f = e.split(' ').collect::<Vec<_>>();
            format!("{{\\"pid\\":1,\\"tid\\":0,\\"ph\\":\\"X\\",\\"ts\\":{},\\"dur\\":{},\\"name\\":\\"{}\\"}},\\n{{\\"pid\\":1,\\"tid\\":{},\\"ph\\":\\"X\\",\\"ts\\":0,\\"dur\\":{},\\"name\\":\\"Total {}\\",\\"args\\":{{\\"count\\":1,\\"avg ms\\":1}}}},\\n", f[0], f[1], f[2], f[0], f[1], f[2])
        }).collect::<String>();
        let s = format!("{{\\"traceEvents\\":[\\n{e}{{\\"cat\\":\\"\\",\\"pid\\":1,\\"tid\\":0,\\"ts\\":0,\\"ph\\":\\"M\\",\\"name\\":\\"process_name\\",\\"args\\":{{\\"name\\":\\"clang\\"}}}}\\n],\\"beginningOfTime\\":1}}");
        clang_time_trace::ClangTrace::from_str(&s).unwrap()
    }
'''
GP='''
    const P: GlyphPalette = GlyphPalette { middle_item: "+", last_item: "+", item_indent: "-", middle_skip: "|", last_skip: " ", skip_indent: " " };
    fn tree(events: &str, threshold: f64, cols: u16) -> String {
        let mut t = load(events);
        let root = t.root_activities().next().unwrap().id();
        let norm = crate::trace::duration_norm(t.root_activities());
        hierarchical_profile_tree(&mut t, P, root, norm, threshold, cols).to_string()
    }
'''
S=[
dict(id='u07-exact-threshold',prop='U07',needs='an activity whose share is exactly the threshold',
 breaks='activities that reach the threshold exactly are left out and announced as below it',
 edits=[(TR,'.filter(|a| duration(a) >= threshold)','.filter(|a| duration(a) - threshold > 0.0)')],unit=mod(TRACE+GP+'''
    #[test]
    fn demo_test() {
        let s = tree("1000 500 Backend;1000 1000 Frontend", 0.5, 200);
        assert!(s.contains("Backend") && !s.contains("below"), "{s}");
    }'''),**U(ST)),
dict(id='u07-one-omitted',prop='U07',needs='a node with exactly one child below the threshold',
 breaks='a single child that is left out is not announced',
 edits=[(ST,'tree = if num_hottest == num_children {','tree = if num_hottest + 1 >= num_children {')],unit=mod(TRACE+GP+'''
    #[test]
    fn demo_test() {
        let s = tree("1000 500 Backend;1600 3 Optimizer;1000 1000 Frontend", 0.1, 200);
        assert!(s.contains("Backend") && s.contains("1 callee(s) below"), "{s}");
    }'''),**U(ST)),
dict(id='u07-longest-root',prop='U07',needs='a trace with several root activities',
 breaks='percentages are of the longest root activity rather than of all of them',
 edits=[(TR,'let root_duration = roots.map(|root| root.duration()).sum::<f64>();','let root_duration = roots.map(|root| root.duration()).fold(0.0, f64::max);')],unit=mod(TRACE+'''
    #[test]
    fn demo_test() {
        let t = load("1000 1000 Frontend;3000 3000 Backend");
        let n = super::duration_norm(t.root_activities());
        assert!((n * 4000.0 - 1.0).abs() < 1e-6 || (n * 0.004 - 1.0).abs() < 1e-6, "{n}");
    }'''),**U(TR)),
dict(id='u07-short-of-room',prop='U07',needs='a line whose description only fits without the figures',
 breaks='the figures are added to lines that have no room for them',
 edits=[(ST,'''                Ok(false) => Ok(()),
                Err(''','''                Ok(false) => write!(output, "{trailer}"),
                Err(''')],unit=mod(TRACE+GP+'''
    #[test]
    fn demo_test() {
        for cols in 3..60 {
            let s = tree("1000 1000 Frontend", 0.1, cols);
            assert!(s.trim_end().width() <= cols as usize, "{cols} {s}");
        }
    }'''),**U(ST)),
dict(id='u07-thread-of-pid',prop='U07',needs='a column limit that the process id just fits into',
 breaks='a part of the metadata that starts a new line is lost',
 edits=[(MD,'''            buf.push('\\n');
            last_line_width = 0;
        } else {''','''            buf.push('\\n');
            last_line_width = 0;
            if extra.width() + 1 == effective_max_cols {
                return;
            }
        } else {''')],unit=mod(TRACE+'''
    #[test]
    fn demo_test() {
        let t = load("1000 1000 Frontend");
        for cols in 20..40 {
            let s = super::metadata(&t, cols);
            assert!(s.contains("recorded") || s.contains('…'), "{cols} {s}");
        }
    }'''),**U(MD)),
]
