W='cmakeperf/src/measure/worker.rs'; C='cmakeperf/src/commands.rs'; T='src/ui/tui/trace/measure.rs'
ARGS="""    for arg in job.args() {
        command.arg(arg.as_ref());
    }
"""
TARGS="""        for arg in entry.args() {
            command.arg(arg.as_ref());
        }
"""
M=[
("skip empty args","D04","D04",[(W,ARGS,"""    for arg in job.args() {
        if !arg.as_ref().is_empty() { command.arg(arg.as_ref()); }
    }
""")]),
("filter -o","D04","D04",[(W,"for arg in job.args() {","for arg in job.args().filter(|a| a.as_ref() != \"-MD\") {")]),
("no cwd","D04","D04",[(W,"        .current_dir(job.current_dir())\n","        .current_dir(\".\")\n")]),
("cwd of input","D04","D04",[(W,".current_dir(job.current_dir())",".current_dir(job.input().parent().unwrap())")]),
("args not skipping","D04","D04",[(C,"self.full_args().skip(1)","self.full_args().skip(0)")]),
("args skip 2","D04","D04",[(C,"self.full_args().skip(1)","self.full_args().skip(2)")]),
("program second","D04","D04",[(C,"self.full_args().next()","self.full_args().nth(1)")]),
("command from file","D04","D04",[(C,"    pub fn raw_command(&self) -> &str {\n        &self.command","    pub fn raw_command(&self) -> &str {\n        if self.output.is_some() { return self.command.trim_end_matches(\"; :\"); }\n        &self.command")]),
("extra arg","D04","D04",[(W,"    match command.spawn() {","    command.arg(\"-w\");\n    match command.spawn() {")]),
("extra env","D04","D04",[(W,"    match command.spawn() {","    command.env(\"CCACHE_DISABLE\", \"1\");\n    match command.spawn() {")]),
("rss last","D04","D04",[(W,"max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","max_rss_bytes = tree.memory(&system);")]),
("rss min","D04","D04",[(W,"max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","max_rss_bytes = max_rss_bytes.min(tree.memory(&system));")]),
("rss once","D04","D04",[(W,"                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","                    if max_rss_bytes == 0 { max_rss_bytes = max_rss_bytes.max(tree.memory(&system)); }")]),
("tree not reset","D04","D04",[(W,"    tree.set_root(Pid::from_u32(process.child.id()));","    if tree.tree.is_empty() { tree.set_root(Pid::from_u32(process.child.id())); }")]),
("virtual memory","D04","D04",[(W,"process.memory()","process.virtual_memory()")]),
("time from start of wait","D04","D04",[(W,"    let start = measure_time.then(Instant::now);\n    let mut process = start_job(&job)?;","    let mut process = start_job(&job)?;\n    let start = measure_time.then(Instant::now);")]),
("time always","D04","D04",[(W,"let start = measure_time.then(Instant::now);","let start = Some(Instant::now());")]),
("time negated","D04","D04",[(W,"let start = measure_time.then(Instant::now);","let start = (!measure_time).then(Instant::now);")]),
("time early","D04","D04",[(W,"""    let exit_status = loop {
        match""","""    let wall_time = start.map(|start| start.elapsed());
    let exit_status = loop {
        match"""),(W,"    let wall_time = start.map(|start| start.elapsed());\n\n    // Decide","\n    // Decide")]),
("path of output","D04","D04",[(W,".unwrap_or_else(|| job.input().to_owned())",".unwrap_or_else(|| job.current_dir().to_owned())")]),
("path vs job dir","D04","D04",[(W,"pathdiff::diff_paths(job.input(), workdir)","pathdiff::diff_paths(job.input(), job.current_dir()).filter(|_| workdir.exists())")]),
("trace w/o granularity","D04","D04",[(T,"        if let Some(granularity) = time_trace_granularity {","        if let Some(granularity) = time_trace_granularity.filter(|g| *g != 500) {")]),
("trace default granularity","D04","D04",[(T,"        if let Some(granularity) = time_trace_granularity {","        { let granularity = time_trace_granularity.unwrap_or(0);")]),
("trace flag dropped","D04","D04",[(T,'command.current_dir(entry.current_dir()).arg("-ftime-trace");','command.current_dir(entry.current_dir());\n        if time_trace_granularity.is_none() { command.arg("-ftime-trace"); }')]),
("trace own program","D04","D04",[(T,"Command::new(clangpp)","Command::new(entry.program().as_ref().map_or(clangpp, |p| p.as_ref()))")]),
("trace args take","D04","D04",[(T,TARGS,"""        for arg in entry.args().take_while(|a| a.as_ref() != "--") {
            command.arg(arg.as_ref());
        }
""")]),
("trace flag amid","D04","D04",[(T,TARGS,"""        for arg in entry.args() {
            command.arg(arg.as_ref()).arg("-ftime-trace");
        }
""")]),
("trace env in start","D04","D04",[(T,"            .stdin(Stdio::null())","            .env_clear().stdin(Stdio::null())")]),
# equivalent
("eq: args()","D04","-",[(W,ARGS,"    command.args(job.args().map(|arg| arg.as_ref().to_owned()));\n")]),
("eq: trace args()","D04","-",[(T,TARGS,"        command.args(entry.args().map(|arg| arg.as_ref().to_string()));\n")]),
("eq: peel program","D04","-",[(W,"""    let Some(program) = job.program() else {
        return Err(JobError::NoProgram);
    };""","""    let program = match job.program() {
        Some(program) => program,
        None => return Err(JobError::NoProgram),
    };"""),(W,ARGS,"""    let mut args = job.args();
    while let Some(arg) = args.next() {
        command.arg(arg.as_ref());
    }
""")]),
("eq: if start","D04","-",[(W,"let start = measure_time.then(Instant::now);","let start = if measure_time { Some(Instant::now()) } else { None };"),(W,"let wall_time = start.map(|start| start.elapsed());","let wall_time = match start { Some(s) => Some(Instant::now().duration_since(s)), None => None };")]),
("eq: max by if","D04","-",[(W,"                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","                    let m = tree.memory(&system);\n                    if m > max_rss_bytes { max_rss_bytes = m; }")]),
("eq: sum as loop","D04","-",[(W,"        self.processes(system).map(|process| process.memory()).sum()","        let mut total = 0;\n        for process in self.processes(system) { total += process.memory(); }\n        total")]),
("eq: rel path by match","D04","-",[(W,"""    let rel_path = std::env::current_dir()
        .ok()
        .and_then(|workdir| pathdiff::diff_paths(job.input(), workdir))
        .unwrap_or_else(|| job.input().to_owned());""","""    let rel_path = match std::env::current_dir() {
        Ok(workdir) => pathdiff::diff_paths(job.input(), &workdir),
        Err(_) => None,
    };
    let rel_path = match rel_path { Some(p) => p, None => job.input().to_path_buf() };""")]),
("eq: helper builds command","D04","-",[(W,"""    let mut command = Command::new(program.as_ref());
    command
""","""    let mut command = make(program.as_ref());
    command
"""),(W,"/// Start a compilation process\nfn","fn make(program: &str) -> Command { Command::new(program) }\n/// Start a compilation process\nfn")]),
("eq: trace helper","D04","-",[(T,TARGS,"        add_args(&mut command, entry);\n"),(T,"/// Start measuring a clang","""fn add_args(command: &mut Command, entry: &cmakeperf::commands::DatabaseEntry) {
    for arg in entry.args() {
        command.arg(arg.as_ref());
    }
}
/// Start measuring a clang""")]),
("if min","D04","D04",[(W,"                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","                    let m = tree.memory(&system);\n                    if m < max_rss_bytes { max_rss_bytes = m; }")]),
("if max or drop","D04","D04",[(W,"                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","                    let m = tree.memory(&system);\n                    if m > max_rss_bytes || m < max_rss_bytes / 8 { max_rss_bytes = m; }")]),
("eq: max by if 2","D04","-",[(W,"                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","                    let m = tree.memory(&system);\n                    if max_rss_bytes >= m { continue; }\n                    max_rss_bytes = m;")]),
("eq: max by match","D04","-",[(W,"                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","                    let m = tree.memory(&system);\n                    max_rss_bytes = if max_rss_bytes < m { m } else { max_rss_bytes };")]),
("eq: max by cmp","D04","-",[(W,"                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));","                    let m = tree.memory(&system);\n                    max_rss_bytes = std::cmp::max(m, max_rss_bytes);")]),
]