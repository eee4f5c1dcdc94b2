C='cmakeperf/src/commands.rs'; O='cmakeperf/src/output.rs'
MAIN='''
fn main() {
    let dir = PathBuf::from(std::env::args().nth(1).unwrap());
    let ok = demo(&dir);
    println!("{}", if ok { "as expected" } else { "VIOLATED" });
    std::process::exit(if ok { 0 } else { 1 })
}
'''
S=[
dict(id='d01-removed-source',prop='D01',needs='a compilation database that still lists a source file which was removed since',
 breaks='a source file whose modification time cannot be queried is ignored, and the profile is declared possibly up to date',
 edits=[(C,'''            if product_mtime < input.metadata()?.modified()? {
                return Ok(ProductFreshness::Outdated);
            }
''','''            match input.metadata().and_then(|m| m.modified()) {
                Ok(mtime) if product_mtime < mtime => return Ok(ProductFreshness::Outdated),
                // A source that is gone cannot be more recent than the product
                Err(e) if e.kind() != io::ErrorKind::NotFound => return Err(e),
                _ => {}
            }
''')],
 deps=['cmakeperf'],main='''use cmakeperf::commands::*;
use std::{fs, path::*};
'''+MAIN+'''
fn demo(dir: &Path) -> bool {
    std::env::set_current_dir(dir).unwrap();
    fs::write("a.cpp", "").unwrap();
    fs::write("compile_commands.json", format!("[{{\\"directory\\":{dir:?},\\"command\\":\\"c++ a.cpp\\",\\"file\\":{:?}}},{{\\"directory\\":{dir:?},\\"command\\":\\"c++ gone.cpp\\",\\"file\\":{:?}}}]", dir.join("a.cpp"), dir.join("gone.cpp"))).unwrap();
    fs::write("cmakeperf.csv", "").unwrap();
    CompilationDatabase::load().unwrap().profile_freshness(Path::new("cmakeperf.csv")).is_err()
}
'''),
dict(id='d02-truncated-row',prop='D02',needs='a build profile with a row that does not have as many fields as the header, followed by other rows',
 breaks='the rest of the profile is dropped although loading reports success',
 edits=[(O,'''    for unit in reader.deserialize() {
        result.push(unit?);
    }
''','''    for unit in reader.deserialize() {
        match unit {
            Ok(unit) => result.push(unit),
            // The last row is incomplete if profiling was interrupted
            Err(e) if matches!(e.kind(), csv::ErrorKind::UnequalLengths { .. }) => break,
            Err(e) => return Err(e.into()),
        }
    }
''')],
 deps=['cmakeperf'],main='''use std::{fs, path::*};
'''+MAIN+'''
fn demo(dir: &Path) -> bool {
    let f = dir.join("p.csv");
    fs::write(&f, "file,max_rss,time\\na.cpp,1,2.0\\nb.cpp,2\\nc.cpp,3,4.0\\n").unwrap();
    cmakeperf::output::load(&f).is_err()
}
'''),
dict(id='d03-serialized-name',prop='D03',needs='a build profile with times that is written by the profiler and read back',
 breaks='times are written to a column that loading a profile ignores',
 edits=[(O,'''    #[serde(rename = "time")]''','''    #[serde(rename(serialize = "wall_time", deserialize = "time"))]''')],
 deps=['cmakeperf'],base='measure_main.rs',main='''
fn demo(dir: &Path) -> bool {
    let d = db(dir, &["exec sleep 0.2".to_owned()]);
    let (tx, done) = mpsc::channel();
    let out = dir.join("out.csv");
    let _m = Measurement::start(out.clone(), &d, true, NonZeroUsize::new(1), || {}, move |r| { let _ = tx.send(r); });
    done.recv_timeout(Duration::from_secs(30)).unwrap().unwrap();
    let p = cmakeperf::output::load(&out).unwrap();
    p.len() == 1 && matches!(p[0].wall_time(), Some(Ok(t)) if t > Duration::from_millis(100))
}
'''),
dict(id='d03-zero-time',prop='D03',needs='a unit with a measured time of zero',
 breaks='a time of zero is treated like a missing one',
 edits=[(O,'''            wall_time_secs: wall_time.map(|time| time.as_secs_f32()),''','''            wall_time_secs: wall_time
                .map(|time| time.as_secs_f32())
                .filter(|secs| *secs > 0.0),''')],
 deps=['cmakeperf'],main='''use std::path::*;
'''+MAIN+'''
fn demo(_: &Path) -> bool {
    let p = cmakeperf::output::UnitProfile::new(Path::new("a.cpp"), 1, Some(Default::default()));
    p.wall_time().is_some()
}
'''),
]
