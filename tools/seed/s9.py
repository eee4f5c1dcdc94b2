exec(open('/verif/tools/seed/s7.py').read().split("\nS=[")[0])
S=[
dict(id='u11-separator',prop='U11',needs='a terminal that is narrower than the title of the description panel',
 breaks='computing the length of the separator underflows',
 edits=[(DI,"repeat('─').take(terminal_width as usize))","repeat('─').take(terminal_width as usize - 20))")],unit=mod('''
    #[test]
    fn demo_test() {
        for width in 0..100 {
            let cursive = cursive::dummy();
            let _ = make_description_view(&cursive.into_runner(), width, 0);
        }
    }'''),**U(DI)),
dict(id='u11-footer',prop='U11',needs='a terminal that is narrower than the help text',
 breaks='deciding whether the help text fits on the last line underflows',
 edits=[(DI,"if last_line.width() + 1 + HELP_TEXT.width() <= terminal_width as usize {","if last_line.width() + 1 <= terminal_width as usize - HELP_TEXT.width() {")],unit=mod('''
    #[test]
    fn demo_test() {
        for width in 0..100 {
            let _ = make_footer_view(width, "Process ID 1".to_string());
        }
    }'''),**U(DI)),
dict(id='u11-nesting',prop='U11',needs='nesting that is deeper than the columns that are left',
 breaks='the columns of deeply nested activities underflow',
 edits=[(ST,'''    let child_cols = max_cols
        .saturating_sub(palette.middle_item.width() as u16)
        .saturating_sub(palette.item_indent.width() as u16);
''','''    let prefix_cols = palette.middle_item.width() + palette.item_indent.width();
    let child_cols = max_cols - prefix_cols as u16;
''')],unit=mod(TRACE+GP+'''
    #[test]
    fn demo_test() {
        for cols in 3..60 {
            let _ = tree("1000 700 Optimizer;1000 800 Frontend;1000 900 Backend", 0.0, cols);
        }
    }'''),**U(ST)),
]
