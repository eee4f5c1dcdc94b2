W='cmakeperf/src/measure/worker.rs'; N='cmakeperf/src/measure/main.rs'; D='cmakeperf/src/measure/mod.rs'
M=[
("no break after failed","M04","M04",[(W,"            if failed {\n                break;\n            }","            if failed { log::warn!(\"failed\"); }")]),
("status not checked","M04","M04",[(W,"        return Err(JobError::JobFailed);","        if message.is_empty() { return Err(JobError::JobFailed); }")]),
("panic not reported","M04","M04",[(W,"""        output
            .send(Err(JobError::WorkerPanicked))
            .expect("Main thread has crashed");
        std::panic::resume""","""        std::panic::resume""")]),
("send only ok","M04","M04",[(W,"""            output_ref.send(result).expect("Main thread has crashed");""","""            if !failed || tree.tree.is_empty() { output_ref.send(result).expect("Main thread has crashed"); }""")]),
("wrong killed error","M04","M04",[(W,"""                    tree.kill(&system);
                    return Err(JobError::Killed(job));""","""                    tree.kill(&system);
                    return Err(JobError::JobFailed);""")]),
("refactor: helper send","M04,M05","-",[(W,"""            let result = process_job(&mut tree, job, &mut monitor_client, measure_time);
            let failed = result.is_err();
            output_ref.send(result).expect("Main thread has crashed");
            if failed {
                break;
            }""","""            if !one(&mut tree, job, &mut monitor_client, measure_time, &output_ref) { return; }"""),(W,"""/// Processing of a single job
""","""fn one(tree: &mut ProcessTree, job: DatabaseEntry, m: &mut MonitorClient, t: bool, out: &Sender<Result<UnitProfile, JobError>>) -> bool {
    match process_job(tree, job, m, t) {
        Ok(p) => { out.send(Ok(p)).expect("x"); true }
        Err(e) => { out.send(Err(e)).expect("x"); false }
    }
}
/// Processing of a single job
""")]),
("keep_job ignored","M05","M05",[(W,"if let Err(MustStop) = monitor_client.keep_job() {","if let (Err(MustStop), true) = (monitor_client.keep_job(), max_rss_bytes == 0) {")]),
("switch_job ignored","M05","M05",[(W,"if let Err(MustStop) = monitor_client.switch_job() {","if let (Err(MustStop), None) = (monitor_client.switch_job(), job.program()) {")]),
("untimed wait","M05","M05",[(W,"        match process.child.wait_timeout(poll_clock.poll_delay()) {","        match process.child.wait().map(Some) {")]),
("stop_all skips","M05","M05",[(N,"        for word in &self.0 .0 {","        for word in self.0 .0.iter().skip(1) {")]),
("drop w/o stop","M05","M05",[(D,"        self.kill.store(true, Ordering::Release);\n        if let Some(main_thread) = self.main_thread.take() {\n            std::mem::drop(main_thread.join());\n        }","        if let Some(main_thread) = self.main_thread.take() {\n            std::mem::drop(main_thread.join());\n        }\n        self.kill.store(true, Ordering::Release);")]),
("kill poll only on timeout","M05","M05",[(N,"if kill.load(Ordering::Relaxed) {","if remaining_jobs > 1 && kill.load(Ordering::Relaxed) {")]),
("untimed recv","M05","M05",[(N,"results_receiver.recv_timeout(poll_clock.poll_delay())","results_receiver.recv().map_err(|_| RecvTimeoutError::Disconnected)")]),
("monitorserver drop noop","M05","M05",[(N,"        self.stop_all()\n","        if self.last_available_memory.is_none() { self.stop_all() }\n")]),
("refactor: must_stop inline / while loop","M05,M04","-",[(W,"""        let raised = (self.word.load(Ordering::Relaxed) & self.mask) == 0;
        if raised {
            atomic::fence(Ordering::Acquire);
        }
        raised""","""        if self.word.load(Ordering::Relaxed) & self.mask != 0 {
            return false;
        }
        atomic::fence(Ordering::Acquire);
        true""")]),
("refactor: stop_all for_each","M05","-",[(N,"""        for word in &self.0 .0 {
            word.store(0, Ordering::Relaxed);
        }""","""        self.0 .0.iter().for_each(|word| word.store(0, Ordering::Relaxed));""")]),
("refactor: kill helper","M05,M03","-",[(N,"if kill.load(Ordering::Relaxed) {\n","if asked(&kill) {\n"),(N,"/// Determine the number of worker","fn asked(k: &AtomicBool) -> bool { k.load(Ordering::Relaxed) }\n/// Determine the number of worker")]),
]
