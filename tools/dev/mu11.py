TD='src/ui/tui/trace/display.rs'; BD='src/ui/tui/build/display.rs'; ST='src/ui/stdio.rs'; PR='src/ui/tui/processing.rs'
M=[
("sep minus","U11","U11",[(TD,".take(terminal_width as usize))",".take(terminal_width as usize - 19))")]),
("footer minus","U11","U11",[(TD,"if last_line.width() + 1 + HELP_TEXT.width() <= terminal_width as usize {","if last_line.width() <= terminal_width as usize - HELP_TEXT.width() - 1 {")]),
("no max build","U11","U11",[(BD,"        .max(1);",";")]),
("no max desc","U11","U11",[(TD,"terminal_width.max(1)","terminal_width")]),
("min cols","U11","U11",[(ST,".max(MIN_COLS)",".max(1)")]),
("flat minus","U11","U11",[(ST,"max_cols - 2,","max_cols - 4,")]),
("meta","U11","U11",[(ST,"metadata(&trace, max_cols));","metadata(&trace, max_cols - 3));")]),
("height","U11","U11",[(BD,"terminal_height.saturating_sub(1)","terminal_height - 1")]),
("wrapping","U11","U11",[(BD,"terminal_height.saturating_sub(1)","terminal_height.wrapping_sub(1)")]),
("height4","U11","-",[(TD,"terminal_height as usize / 4","(terminal_height as usize) >> 2")]),
("eq if","U11","-",[(TD,"    terminal_width.saturating_sub(durations_scroll_width as u16)\n","    let used = durations_scroll_width as u16;\n    if terminal_width > used { terminal_width - used } else { 0 }\n")]),
("eq checked","U11","-",[(TD,"    terminal_width.saturating_sub(durations_scroll_width as u16)\n","    terminal_width.checked_sub(durations_scroll_width as u16).unwrap_or(0)\n")]),
("eq early","U11","-",[(TD,"    terminal_width.saturating_sub(durations_scroll_width as u16)\n","    let used = durations_scroll_width as u16;\n    if terminal_width < used { return 0; }\n    terminal_width - used\n")]),
("eq helper","U11","-",[(BD,"    let file_width = (terminal_width as usize)\n        .saturating_sub(non_file_width)\n        .max(1);\n","    let file_width = remaining_width(terminal_width, non_file_width);\n"),(BD,"/// Column in the build profile\n","fn remaining_width(tot: u16, used: usize) -> usize {\n    let tot = usize::from(tot);\n    if tot > used { tot - used } else { 1 }\n}\n\n/// Column in the build profile\n")]),
("eq max in shadow","U11","-",[(TD,"terminal_width.max(1)","width"),(TD,"        // Set up the basic trace description footer\n","        let width = if terminal_width == 0 { 1 } else { terminal_width };\n")]),
("eq clamp","U11","-",[(ST,".max(MIN_COLS)",".clamp(MIN_COLS, u16::MAX)")]),
("eq min if","U11","-",[(ST,"""        .max(MIN_COLS);
""",""";
    let max_cols = if max_cols < MIN_COLS { MIN_COLS } else { max_cols };
""")]),
("eq struct","U11","-",[(TD,"""    let (terminal_width, terminal_height) =
        termion::terminal_size().expect("Could not read terminal configuration");
""","""    let size = termion::terminal_size().expect("Could not read terminal configuration");
    let (terminal_width, terminal_height) = size;
""")]),
]
