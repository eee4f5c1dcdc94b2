//! Profiles scratch compilation databases with cmakeperf and reports what was observed
use cmakeperf::{commands::CompilationDatabase, measure::*};
use std::{fs, num::NonZeroUsize, path::{Path, PathBuf}, sync::{atomic::*, mpsc, Arc}, time::*};

/// Compilation database whose jobs run shell scripts
#[allow(dead_code)]
fn db(dir: &Path, jobs: &[String]) -> CompilationDatabase {
    let mut v = String::from("[");
    for (i, j) in jobs.iter().enumerate() {
        let f = dir.join(format!("s{i}.sh"));
        fs::write(&f, format!("{j}\n")).unwrap();
        let src = dir.join(format!("f{i}.cpp"));
        fs::write(&src, "").unwrap();
        if i > 0 {
            v.push(',')
        }
        v.push_str(&format!("{{\"directory\":{dir:?},\"command\":\"/bin/sh {} -o f{i}.o\",\"file\":{src:?}}}", f.display()));
    }
    v.push(']');
    fs::write(dir.join("compile_commands.json"), v).unwrap();
    std::env::set_current_dir(dir).unwrap();
    CompilationDatabase::load().unwrap()
}

#[allow(dead_code)]
struct Run {
    m: Option<Measurement>,
    steps: Arc<AtomicUsize>,
    done: mpsc::Receiver<Result<(), MeasureError>>,
    out: PathBuf,
    start: Instant,
}
#[allow(dead_code)]
impl Run {
    fn new(dir: &Path, out: Option<&str>, n: usize, jobs: &[String]) -> Run {
        let out = out.map(PathBuf::from).unwrap_or(dir.join("out.csv"));
        let d = db(dir, jobs);
        let steps = Arc::new(AtomicUsize::new(0));
        let s2 = steps.clone();
        let (tx, done) = mpsc::channel();
        let start = Instant::now();
        let m = Measurement::start(out.clone(), &d, false, NonZeroUsize::new(n), move || { s2.fetch_add(1, Ordering::SeqCst); }, move |r| { let _ = tx.send(r); });
        Run { m: Some(m), steps, done, out, start }
    }
    fn wait(&self, secs: u64) -> Option<Result<(), MeasureError>> {
        self.done.recv_timeout(Duration::from_secs(secs)).ok()
    }
    fn rows(&self) -> usize {
        fs::read_to_string(&self.out).unwrap_or_default().lines().count().saturating_sub(1)
    }
    fn steps(&self) -> usize {
        self.steps.load(Ordering::SeqCst)
    }
}

fn main() {
    let dir = PathBuf::from(std::env::args().nth(1).unwrap());
    let ok = demo(&dir);
    println!("{}", if ok { "as expected" } else { "VIOLATED" });
    std::process::exit(if ok { 0 } else { 1 })
}
