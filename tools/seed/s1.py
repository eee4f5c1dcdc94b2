N='cmakeperf/src/measure/main.rs'; W='cmakeperf/src/measure/worker.rs'; D='cmakeperf/src/measure/mod.rs'
S=[
dict(id='m01-flush-error',prop='M01',needs='an output file system that is full, with fewer rows than fit in the write buffer',
 breaks='the profile cannot be written out but the measurement reports success',
 edits=[(N,"            writer.flush()?;\n            Ok(())","            if let Err(e) = writer.flush() {\n                log::error!(\"Failed to finish writing the build profile: {e}\");\n            }\n            Ok(())")],
 deps=['cmakeperf'],base='measure_main.rs',main='''
fn demo(dir: &Path) -> bool {
    let r = Run::new(dir, Some("/dev/full"), 2, &["true".to_owned(), "true".to_owned()]);
    matches!(r.wait(30), Some(Err(_)))
}
'''),
dict(id='m04-signal-status',prop='M04',needs='a compiler that is killed by a signal instead of exiting with a failing status',
 breaks='a unit whose compiler crashed is recorded as successfully compiled',
 edits=[(W,"    if !exit_status.success() {","    if exit_status.code().map_or(false, |code| code != 0) {")],
 deps=['cmakeperf'],base='measure_main.rs',main='''
fn demo(dir: &Path) -> bool {
    let r = Run::new(dir, None, 1, &["true".to_owned(), "kill -SEGV $$".to_owned()]);
    matches!(r.wait(30), Some(Err(MeasureError::Job(_))))
}
'''),
dict(id='m05-sparse-stop-polls',prop='M05',needs='a measurement that is dropped while a compiler is running, at a moment that is not a multiple of sixteen polls after it was started',
 breaks='workers keep waiting for their compilers for several polling intervals after they were asked to stop',
 edits=[(W,"""        // Handle stop signal
        if self.must_stop() {""","""        // Handle stop signal, which it is enough to look for every once in a while
        if self.elapsed % 16 == 0 && self.must_stop() {""")],
 deps=['cmakeperf'],base='measure_main.rs',main='''
fn demo(dir: &Path) -> bool {
    PollClock::set_polling_interval(Duration::from_secs(1));
    let mut r = Run::new(dir, None, 1, &["exec sleep 60".to_owned()]);
    std::thread::sleep(Duration::from_millis(2500));
    let t = Instant::now();
    r.m = None;
    println!("stopped after {:?}", t.elapsed());
    t.elapsed() < Duration::from_secs(5)
}
'''),
dict(id='m03-silent-kill',prop='M03',needs='a measurement that is dropped before it is done',
 breaks='the completion callback is never called for a measurement that was stopped',
 edits=[(D,"""                build_done(main::run(
                    path,
                    jobs,
                    measure_time,
                    concurrency,
                    step_done,
                    kill,
                ))
""","""                let killed = kill.clone();
                let result = main::run(path, jobs, measure_time, concurrency, step_done, kill);
                // Nobody is waiting for the outcome of a measurement that was dropped
                if !killed.load(Ordering::Acquire) {
                    build_done(result)
                }
""")],
 deps=['cmakeperf'],base='measure_main.rs',main='''
fn demo(dir: &Path) -> bool {
    let mut r = Run::new(dir, None, 1, &["exec sleep 20".to_owned()]);
    std::thread::sleep(Duration::from_secs(1));
    r.m = None;
    matches!(r.wait(5), Some(Err(MeasureError::Killed)))
}
'''),
dict(id='m02-early-step',prop='M02',needs='a write error while units are being recorded',
 breaks='a unit is announced as completed although recording it failed',
 edits=[(N,"""                        writer.serialize(unit_profile)?;
                        step_done();
""","""                        step_done();
                        writer.serialize(unit_profile)?;
""")],
 deps=['cmakeperf'],base='measure_main.rs',main='''
/// Directory names are long, so that the write buffer overflows at the same, known row (the sixth) whatever was measured
fn demo(dir: &Path) -> bool {
    let mut d = dir.to_owned();
    for _ in 0..6 {
        d.push("x".repeat(250));
    }
    fs::create_dir_all(&d).unwrap();
    let db = db(&d, &(0..12).map(|_| "true".to_owned()).collect::<Vec<_>>());
    std::env::set_current_dir("/").unwrap();
    let steps = Arc::new(AtomicUsize::new(0));
    let s2 = steps.clone();
    let (tx, rx) = mpsc::channel();
    let _m = Measurement::start(Path::new("/dev/full"), &db, false, NonZeroUsize::new(1), move || { s2.fetch_add(1, Ordering::SeqCst); }, move |r| tx.send(r).unwrap());
    let r = rx.recv_timeout(Duration::from_secs(60));
    let n = steps.load(Ordering::SeqCst);
    println!("{r:?} after {n} announced units");
    matches!(r, Ok(Err(_))) && n == 5
}
'''),
]
