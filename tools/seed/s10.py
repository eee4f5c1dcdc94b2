exec(open('/verif/tools/seed/s7.py').read().split("\nS=[")[0])
AC='src/ui/display/activity.rs'; DM='src/ui/display/mod.rs'
DEMO="""
    #[allow(dead_code)]
    fn describe(arg: &ActivityArgument<'_>, config: DisplayConfig) -> Option<String> {
        let mut out = Vec::new();
        match display_activity_desc(&mut out, &ActivityId::Frontend, arg, config) {
            Ok(_) => Some(String::from_utf8(out).unwrap()),
            Err(ActivityDescError::NotEnoughCols(_)) => None,
            Err(e) => panic!("{e}"),
        }
    }
    #[allow(dead_code)]
    const MANY: DisplayConfig = DisplayConfig::MultiLine { tot_cols: 20, header_cols: 0, trailer_cols: 0 };
"""
S=[
dict(id='u12-loop',prop='U12',needs='an optimization of a loop without a name',
 breaks='the argument is left out for unnamed loops',
 edits=[(AC,'let has_argument = *activity_arg != ActivityArgument::Nothing;','let has_argument = !matches!(\n        activity_arg,\n        ActivityArgument::Nothing | ActivityArgument::UnnamedLoop\n    );')],unit=mod(DEMO+"""
    #[test]
    fn demo_test() {
        assert_eq!(describe(&ActivityArgument::UnnamedLoop, MANY).unwrap(), "Frontend(<unnamed loop>)");
    }"""),**U(AC)),
dict(id='u12-multi-cut',prop='U12',needs='a text that is longer than the terminal, over several lines',
 breaks='texts are cut to one line although they may use several',
 edits=[(DM,'DisplayConfig::MultiLine { .. } => return write!(output, "{input}"),','DisplayConfig::MultiLine { tot_cols, .. } => tot_cols.max(80),')],unit=mod("""
    #[test]
    fn demo_test() {
        let input = "abcdefghij".repeat(20);
        let mut out = Vec::new();
        let config = DisplayConfig::MultiLine { tot_cols: 100, header_cols: 10, trailer_cols: 1 };
        super::display_string(&mut out, &input, config).unwrap();
        assert_eq!(String::from_utf8(out).unwrap(), input);
    }"""),**U(DM)),
dict(id='u12-full-device',prop='U12',needs='an output that fails exactly at the last character of a description',
 breaks='a description that could not be completed is reported as written',
 edits=[(AC,'    write!(output, ")")?;\n    Ok(should_wrap)','    let _ = write!(output, ")");\n    Ok(should_wrap)')],unit=mod(DEMO+"""
    #[test]
    fn demo_test() {
        for len in 0..10 {
            let mut out = vec![0; len];
            assert!(display_activity_desc(&mut out[..], &ActivityId::Frontend, &ActivityArgument::String("a"), MANY).is_err(), "{len}");
        }
        for len in 10..12 {
            let mut out = vec![0; len];
            assert_eq!(display_activity_desc(&mut out[..], &ActivityId::Frontend, &ActivityArgument::String("a"), MANY).is_ok(), len == 11, "{len}");
        }
    }"""),**U(AC)),
dict(id='u12-module-header',prop='U12',needs='a C++ module as argument, on a line with few columns',
 breaks='modules are shown in full whatever the columns that remain',
 edits=[(AC,'ActivityArgument::Module => super::display_string(&mut output, "[module]", config),','ActivityArgument::Module => write!(output, "[module]"),')],unit=mod(DEMO+"""
    #[test]
    fn demo_test() {
        use unicode_width::UnicodeWidthStr as _;
        for max_cols in 1..40 {
            if let Some(s) = describe(&ActivityArgument::Module, DisplayConfig::SingleLine { max_cols }) {
                assert!(s.width() <= max_cols.into(), "{max_cols} {s}");
            }
        }
    }"""),**U(AC)),
dict(id='u12-no-placeholder',prop='U12',needs='a column of the profile that is narrower than the name of an activity',
 breaks='activities whose name does not fit are shown as nothing rather than an ellipsis',
 edits=[(PR,"""            write!(output, "…").expect("IO to a buffer shouldn't fail");
            false""","""            output.clear();
            false""")],unit=mod(TRACE+"""
    #[test]
    fn demo_test() {
        let mut trace = load("1000 1000 Frontend");
        let id = trace.root_activities().next().unwrap().id();
        let mut desc = |max_cols| describe_activity::<String>(&mut trace, &mut Default::default(), id, DisplayConfig::SingleLine { max_cols });
        assert_eq!(desc(3), ("…".to_string(), false));
        assert_eq!(desc(8), ("Frontend".to_string(), false));
    }"""),**U(PR)),
]
