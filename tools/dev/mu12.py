A='src/ui/display/activity.rs'; D='src/ui/display/mod.rs'
def b(n,*e): return (n,'U12','U12',list(e))
def m(n,*e): return (n,'U12','-',list(e))
M=[
b('no close paren on module',(A,'super::display_string(&mut output, "[module]", config)','{ super::display_string(&mut output, "[module]", config)?; return Ok(should_wrap) }')),
b('paren width once',(A,'activity_name.width() + 2 * paren_width','activity_name.width() + paren_width')),
b('3->2',(A,'activity_name.width() + 3 * (has_argument','activity_name.width() + 2 * (has_argument')),
b('< -> <=',(A,'usize::from(*max_cols) < activity_name','usize::from(*max_cols) <= activity_name')),
b('len for width',(A,'usize::from(*max_cols) < activity_name.width()','usize::from(*max_cols) < activity_name.len()')),
b('wrap single',(A,'            false\n        }\n\n        // In the multi','            true\n        }\n\n        // In the multi')),
b('no arg wrap',(A,'return Ok(should_wrap);','return Ok(false);')),
b('default -> new(1)',(A,'&DisplayState::default()','&DisplayState::new(1)')),
b('bounded in multi',(A,'e.display(&DisplayState::default())','e.bounded_display(80)')),
b('bounded cols -1',(A,'e.bounded_display(max_cols)','e.bounded_display(max_cols.saturating_sub(1).max(1))')),
b('header',(A,'*header_cols += (activity_name.width() + paren_width) as u16','*header_cols += activity_name.width() as u16')),
b('trailer',(A,'*trailer_cols += paren_width as u16;','*trailer_cols += 2 * paren_width as u16;')),
b('symbol demangled nothing',(A,'        | ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => {','        => super::display_string(&mut output, s, config),\n        ActivityArgument::Symbol(Symbol::MaybeMangled(_)) => { let s = "?";')),
b('ignore write error',(A,'    }?;\n    write!(output, ")")?;','    }.ok();\n    write!(output, ")")?;')),
b('ignore write error2',(A,'    write!(output, ")")?;\n    Ok','    let _ = write!(output, ")");\n    Ok')),
b('written before giving up',(A,'            if usize::from(*max_cols) <','            write!(output, "{activity_name}")?;\n            if usize::from(*max_cols) <'),(A,'            } else {\n                write!(output, "{activity_name}")?;\n','            } else {\n')),
b('path copy config',(A,'display_path(p, config)','display_path(p, DisplayConfig::SingleLine { max_cols: 30 })')),
b('path reset config',(A,'    let activity_name = activity_id.name();','    let full = config;\n    let activity_name = activity_id.name();'),(A,'display_path(p, config)','display_path(p, full)')),
b('module text same',(A,'"[module]"','"<unnamed loop>"')),
b('name only on module',(A,'*activity_arg != ActivityArgument::Nothing;','!matches!(activity_arg, ActivityArgument::Nothing | ActivityArgument::Module);')),
b('string < ',(D,'if input.width() <= max_cols {','if input.width() < max_cols {')),
b('string len',(D,'if input.width() <= max_cols {','if input.len() <= max_cols {')),
b('string no ellipsis',(D,'write!(output, "{}…", &input[..header_end])?;','write!(output, "{}", &input[..header_end])?;')),
b('string no trailer',(D,'    write!(output, "{}", &input[trailer_start..])\n','    Ok(())\n')),
b('string multi trimmed',(D,'DisplayConfig::MultiLine { .. } => return write!(output, "{input}"),','DisplayConfig::MultiLine { tot_cols, .. } => tot_cols,')),
m('matches',(A,'*activity_arg != ActivityArgument::Nothing;','!matches!(activity_arg, ActivityArgument::Nothing);')),
m('open paren merged',(A,'    write!(output, "(")?;','    output.write_all(b"(")?;')),
m('write_str',(A,'write!(output, "(")?;','write!(output, "{}", \'(\')?;')),
m('early name',(A,'''            if usize::from(*max_cols) < activity_name.width() + 3 * (has_argument as usize) {
                return Err(ActivityDescError::NotEnoughCols(*max_cols));
            } else {
                write!(output, "{activity_name}")?;
                *max_cols =
                    max_cols.saturating_sub((activity_name.width() + 2 * paren_width) as u16);
            }
            false''','''            let name_width = activity_name.width();
            let needed = if has_argument { name_width + 3 } else { name_width };
            if needed > usize::from(*max_cols) {
                return Err(ActivityDescError::NotEnoughCols(*max_cols));
            }
            write!(output, "{}", activity_name)?;
            *max_cols = max_cols.saturating_sub((name_width + 2 * paren_width) as u16);
            false''')),
m('helper for cols',(A,'usize::from(*max_cols) < activity_name.width() + 3 * (has_argument as usize)','!name_fits(activity_name, has_argument, *max_cols)'),(A,'/// Error that is emitted','fn name_fits(name: &str, has_argument: bool, max_cols: u16) -> bool {\n    name.width() + if has_argument { 3 } else { 0 } <= max_cols.into()\n}\n\n/// Error that is emitted')),
m('write arg helper',(A,'    match activity_arg {\n        ActivityArgument::UnnamedLoop','    write_arg(&mut output, activity_arg, config)?;\n    write!(output, ")")?;\n    Ok(should_wrap)\n}\n\nfn write_arg(mut output: impl io::Write, activity_arg: &ActivityArgument, config: DisplayConfig) -> io::Result<()> {\n    match activity_arg {\n        ActivityArgument::UnnamedLoop'),(A,'    }?;\n    write!(output, ")")?;\n    Ok(should_wrap)\n}','    }\n}')),
m('rebuild config',(A,'''    // Otheriwe,''','''    let config = match config {
        DisplayConfig::SingleLine { max_cols } => DisplayConfig::SingleLine { max_cols },
        other => other,
    };
    // Otheriwe,''')),
m('if let multi',(A,'''            match config {
                DisplayConfig::SingleLine { max_cols } => {
                    write!(output, "{}", e.bounded_display(max_cols))
                }
                DisplayConfig::MultiLine { .. } => {
                    // FIXME: Restore this once pretty-printing is implemented
                    /* should_wrap = false; */
                    write!(output, "{}", e.display(&DisplayState::default()))
                }
            }''','''            if let DisplayConfig::SingleLine { max_cols } = config {
                output.write_all(e.bounded_display(max_cols).as_bytes())
            } else {
                let state = DisplayState::default();
                write!(output, "{}", e.display(&state))
            }''')),
m('texts first',(A,'''        ActivityArgument::UnnamedLoop => {
            super::display_string(&mut output, "<unnamed loop>", config)
        }
        ActivityArgument::Module => super::display_string(&mut output, "[module]", config),
''','''        ActivityArgument::UnnamedLoop | ActivityArgument::Module => {
            let text = if *activity_arg == ActivityArgument::Module { "[module]" } else { "<unnamed loop>" };
            super::display_string(&mut output, text, config)
        }
''')),
m('texts match',(A,'''        ActivityArgument::UnnamedLoop => {
            super::display_string(&mut output, "<unnamed loop>", config)
        }
        ActivityArgument::Module => super::display_string(&mut output, "[module]", config),
''','''        ActivityArgument::UnnamedLoop | ActivityArgument::Module => {
            let text = match activity_arg { ActivityArgument::Module => "[module]", _ => "<unnamed loop>" };
            super::display_string(&mut output, text, config)
        }
''')),
m('question marks',(A,'            write!(output, "{}", super::path::display_path(p, config))\n','            let path = super::path::display_path(p, config);\n            output.write_all(path.as_bytes())\n')),
m('string if let',(D,'''    let max_cols = match config {
        DisplayConfig::SingleLine { max_cols } => max_cols,
        DisplayConfig::MultiLine { .. } => return write!(output, "{input}"),
    } as usize;
    if input.width() <= max_cols {
        return write!(output, "{input}");
    }''','''    let max_cols = match config {
        DisplayConfig::SingleLine { max_cols } if usize::from(max_cols) < input.width() => usize::from(max_cols),
        _ => return output.write_all(input.as_bytes()),
    };''')),
m('string split',(D,'write!(output, "{}…", &input[..header_end])?;','let (header, _) = input.split_at(header_end);\n    write!(output, "{header}")?;\n    write!(output, "…")?;')),
m('string separate ellipsis',(D,'    write!(output, "{}…", &input[..header_end])?;','    let mut output = output;\n    output.write_all(input[..header_end].as_bytes())?;\n    output.write_all("…".as_bytes())?;')),
m('string header helper',(D,'    let max_header_cols = (max_cols - 1) / 2;\n    let mut header_cols = 0;\n','    let budget = max_cols - 1;\n    let max_header_cols = budget / 2;\n    let mut header_cols = 0;\n')),
]
A='src/ui/tui/processing.rs'
W='''            write!(output, "…").expect("IO to a buffer shouldn't fail");
'''
M+=[
b('no ellipsis',(A,W,'')),
b('wrap ellipsis',(A,W+'            false',W+'            true')),
b('no wrap',(A,'        Ok(wrap) => wrap,','        Ok(_) => false,')),
b('dots',(A,'write!(output, "…")','write!(output, "...")')),
m('push bytes',(A,W,'            output.extend_from_slice("…".as_bytes());\n')),
m('return',(A,W+'            false','            return (OwnedStr::from("…"), false)')),
m('from_utf8 owned',(A,'''    let output = std::str::from_utf8(&output[..]).expect("Activity descriptions should be UTF-8");
    (OwnedStr::from(output), wrap)''','''    let output = String::from_utf8(output).expect("Activity descriptions should be UTF-8");
    (output.as_str().into(), wrap)''')),
m('helper',(A,'''    let wrap = match display_activity_desc(''','''    let wrap = render(&mut output, &activity_trace, &parsed_arg.resolve(trace), config);
    let output = std::str::from_utf8(&output[..]).expect("Activity descriptions should be UTF-8");
    (OwnedStr::from(output), wrap)
}

fn render(mut output: &mut Vec<u8>, activity_trace: &clang_time_trace::ActivityTrace, arg: &clang_time_trace::ActivityArgument, config: DisplayConfig) -> bool {
    match display_activity_desc(
'''),(A,'''        &mut output,
        activity_trace.activity().id(),
        &parsed_arg.resolve(trace),
        config,
    ) {''','''        &mut output,
        activity_trace.activity().id(),
        arg,
        config,
    ) {'''),(A,'''    };
    let output = std::str::from_utf8(&output[..]).expect("Activity descriptions should be UTF-8");
    (OwnedStr::from(output), wrap)
}

// FIXME''','''    }
}

// FIXME''')),
m('let else',(A,'''        Ok(wrap) => wrap,
        Err(ActivityDescError::NotEnoughCols(_)) => {''','''        Ok(wrap) => wrap,
        Err(e @ ActivityDescError::NotEnoughCols(_)) => {
            log::debug!("{e}");''')),
]
