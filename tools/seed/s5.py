W='cmakeperf/src/measure/worker.rs'; MM='cmakeperf/src/measure/main.rs'
UNIT='''# Unit test of private items: runs in a copy of the sources
cp -r "$repo/asylum" "$repo/clang-time-trace" "$repo/cmakeperf" "$repo/cpparser" "$repo/simpp" "$repo/src" "$repo/tests" "$repo/Cargo.toml" "$repo/Cargo.lock" "$w/run/"
cat "$here/unit.rs" >> "$w/run/@FILE@"
CARGO_TARGET_DIR=$w/target timeout 280 cargo test --offline -q @PKG@ demo_ > "$w/out" 2>&1; r=$?
tail -15 "$w/out"
grep -q "test result: ok. 1 passed" "$w/out" && exit 0
exit 1
'''
def unit(file,pkg): return UNIT.replace('@FILE@',file).replace('@PKG@',pkg)
DB='''
/// Database with given commands, directories and inputs
fn raw(dir: &Path, jobs: &[(String, PathBuf, PathBuf)]) -> CompilationDatabase {
    let v: Vec<_> = jobs.iter().map(|(c, d, f)| {
        fs::create_dir_all(d).unwrap();
        fs::create_dir_all(f.parent().unwrap()).unwrap();
        fs::write(f, "").unwrap();
        format!("{{\\"directory\\":{d:?},\\"command\\":{c:?},\\"file\\":{f:?}}}")
    }).collect();
    fs::write(dir.join("compile_commands.json"), format!("[{}]", v.join(","))).unwrap();
    std::env::set_current_dir(dir).unwrap();
    CompilationDatabase::load().unwrap()
}
fn measure(dir: &Path, db: &CompilationDatabase, n: usize, time: bool) -> Option<bool> {
    let (tx, done) = mpsc::channel();
    let m = Measurement::start(dir.join("out.csv"), db, time, NonZeroUsize::new(n), || {}, move |r| { let _ = tx.send(r.is_ok()); });
    let r = done.recv_timeout(Duration::from_secs(60)).ok();
    if r.is_none() { std::process::exit(3) }
    drop(m);
    r
}
'''
S=[
dict(id='m06-zombies',prop='M06',base='measure_main.rs',needs='a measurement that is stopped while compilers run',
 breaks='killed compilers are left as zombies',
 edits=[(W,'std::mem::drop(self.child.wait());','std::mem::drop(self.child.try_wait());')],
 deps=['cmakeperf'],main='''
fn zombies() -> usize {
    let me = std::process::id();
    fs::read_dir("/proc").unwrap().filter_map(|e| fs::read_to_string(e.ok()?.path().join("stat")).ok())
        .filter(|s| { let r: Vec<_> = s.rsplit(')').next().unwrap().split_whitespace().collect(); r[1] == me.to_string() }).count()
}
fn demo(dir: &Path) -> bool {
    for _ in 0..3 {
        let jobs: Vec<_> = (0..4).map(|_| "exec sleep 30".to_string()).collect();
        let mut r = Run::new(dir, None, 4, &jobs);
        std::thread::sleep(Duration::from_millis(400));
        r.m.take();
    }
    let n = zombies();
    println!("{n} children left");
    n == 0
}
'''),
dict(id='m07-limited-read',prop='M07',base='measure_main.rs',needs='a compiler that prints more than one megabyte to one of its outputs',
 breaks='compilers with a lot of output make the measurement fail or hang',
 edits=[(W,'pipe.map(|mut pipe| {','pipe.map(|pipe| {'),(W,'pipe.read_to_end(&mut buf).map(|_num_bytes| buf)','''// No need to keep more than that for logging
                    pipe.take(1 << 20)
                        .read_to_end(&mut buf)
                        .map(|_num_bytes| buf)''')],
 deps=['cmakeperf'],main='''
fn demo(dir: &Path) -> bool {
    let small = Run::new(dir, None, 1, &["head -c 3000 /dev/zero".into()]);
    let a = small.wait(20).map(|r| r.is_ok());
    let big = Run::new(dir, None, 1, &["head -c 5000000 /dev/zero || exit 1\\nexit 0".into()]);
    let b = big.wait(20).map(|r| r.is_ok());
    let r = a == Some(true) && b == Some(true);
    if b.is_none() { println!("HANGS"); std::process::exit(1) }
    r
}
'''),
dict(id='m07-stderr-later',prop='M07',base='measure_main.rs',needs='a compiler that fills the pipe of its standard error while it still runs',
 breaks='standard error is only read once standard output was closed, which blocks the compiler forever',
 edits=[(W,'''        process.stdout = start_reading(process.child.stdout.take());
        process.stderr = start_reading(process.child.stderr.take());
''','''        process.stdout = start_reading(process.child.stdout.take());
'''),(W,'''    let stderr = read_stdpipe(process.stderr.take());
    let mut report''','''    let mut stderr = Vec::new();
    if let Some(mut pipe) = process.child.stderr.take() {
        pipe.read_to_end(&mut stderr)
            .expect("Reading from pipes should be infaillible");
    }
    let stderr = String::from_utf8_lossy(&stderr).into_owned();
    let mut report'''),(W,'''            stderr: None,
''',''),(W,'''    /// Thread that collects the process' standard error
    stderr: Option<PipeReader>,
''','')],
 deps=['cmakeperf'],main='''
fn demo(dir: &Path) -> bool {
    let small = Run::new(dir, None, 1, &["head -c 3000 /dev/zero 1>&2".into()]);
    let a = small.wait(20).map(|r| r.is_ok());
    let big = Run::new(dir, None, 1, &["head -c 500000 /dev/zero 1>&2".into()]);
    let b = big.wait(20).map(|r| r.is_ok());
    if b.is_none() { println!("HANGS"); std::process::exit(1) }
    a == Some(true) && b == Some(true)
}
'''),
dict(id='m08-wrap',prop='M08',needs='as many requeued units as there are futex values (reached at once by starting from the last one)',
 breaks='the signal for a requeued unit takes the value that means that no work is left, so that the workers end without it',
 edits=[(MM,'''            last_value
                .checked_add(1)
                .unwrap_or(WorkQueue::FUTEX_INITIAL + 1)
''','''            last_value.wrapping_add(1)
''')],
 deps=[],main='fn main() {}',run=unit('cmakeperf/src/measure/main.rs','-p cmakeperf --lib'),unit='''
#[cfg(test)]
mod demo_test {
    use super::*;
    #[test]
    fn demo_wrap() {
        let queue = WorkQueue::new(Vec::new());
        let mut sender = queue.sender();
        sender.start();
        sender.last_futex_value = u32::MAX;
        queue.futex.store(u32::MAX, Ordering::Release);
        let job = serde_json::from_str::<DatabaseEntry>(r#"{"directory":"/","command":"true","file":"/x"}"#).unwrap();
        sender.push(job);
        assert_ne!(queue.futex.load(Ordering::Acquire), WorkQueue::FUTEX_FINISHED);
    }
}
'''),
dict(id='d04-empty-args',prop='D04',base='measure_main.rs',needs='a command with an empty argument',
 breaks='empty arguments of the command are not passed to the compiler',
 edits=[(W,'''    for arg in job.args() {
        command.arg(arg.as_ref());
    }''','''    for arg in job.args().filter(|arg| !arg.as_ref().trim().is_empty()) {
        command.arg(arg.as_ref());
    }''')],
 deps=['cmakeperf'],main=DB+'''
fn demo(dir: &Path) -> bool {
    let s = dir.join("s.sh");
    fs::write(&s, "printf '%s|' \\"$@\\" > args.txt\\n").unwrap();
    let d = raw(dir, &[(format!("/bin/sh {} a '' ' ' \\"b c\\" z", s.display()), dir.join("x"), dir.join("y/f.cpp"))]);
    measure(dir, &d, 1, false) == Some(true) && fs::read_to_string(dir.join("x/args.txt")).unwrap() == "a|| |b c|z|"
}
'''),
dict(id='d04-input-dir',prop='D04',base='measure_main.rs',needs='a unit whose input is outside of the directory where it is compiled, which exists',
 breaks='units are compiled in the directory of their input rather than that of their database entry',
 edits=[(W,'.current_dir(job.current_dir())','.current_dir(\n            job.input()\n                .parent()\n                .filter(|dir| !dir.starts_with(job.current_dir()) && dir.is_dir())\n                .unwrap_or(job.current_dir()),\n        )')],
 deps=['cmakeperf'],main=DB+'''
fn demo(dir: &Path) -> bool {
    let s = dir.join("s.sh");
    fs::write(&s, "pwd > pwd.txt\\n").unwrap();
    let d = raw(dir, &[(format!("/bin/sh {}", s.display()), dir.join("x"), dir.join("y/f.cpp"))]);
    measure(dir, &d, 1, false) == Some(true) && dir.join("x/pwd.txt").exists()
}
'''),
dict(id='d04-last-sample',prop='D04',base='measure_main.rs',needs='a compiler whose memory usage peaks early and is low at the end',
 breaks='the recorded memory usage is not the maximum when usage decreases by a lot',
 edits=[(W,'max_rss_bytes = max_rss_bytes.max(tree.memory(&system));','''let rss_bytes = tree.memory(&system);
                    if rss_bytes > max_rss_bytes || rss_bytes < max_rss_bytes / 8 {
                        max_rss_bytes = rss_bytes;
                    }''')],
 deps=['cmakeperf'],main=DB+'''
fn demo(dir: &Path) -> bool {
    let s = dir.join("s.py");
    fs::write(&s, "import time\\nx=bytearray(300000000)\\ntime.sleep(2)\\ndel x\\ntime.sleep(2)\\n").unwrap();
    let d = raw(dir, &[(format!("/usr/bin/env python3 -I {}", s.display()), dir.join("x"), dir.join("y/f.cpp"))]);
    let ok = measure(dir, &d, 1, false) == Some(true);
    let out = fs::read_to_string(dir.join("out.csv")).unwrap();
    println!("{out}");
    ok && out.lines().nth(1).unwrap().split(',').any(|f| f.trim().parse::<f64>().is_ok_and(|v| v > 200e6))
}
'''),
]
