W='cmakeperf/src/measure/worker.rs'; N='cmakeperf/src/measure/main.rs'; D='cmakeperf/src/measure/mod.rs'
SCAN="""                std::iter::repeat_with(|| {
                    // Try stealing tasks from other workers...
                    self.shared
                        .stealers
                        .iter()
                        .map(|s| s.steal_batch_and_pop(&self.local))
                        .collect::<Steal<_>>()
                        // ...or if that fails, try the global injector
                        .or_else(|| self.shared.global.steal())
                })
                // Loop while no task was stolen and any steal operation needs to be retried.
                .find(|s| !s.is_retry())
                // Extract the stolen task, if there is one.
                .and_then(|s| s.success())"""
PUSH="""        self.queue.global.push(job);
        self.update_futex("""
M=[
("signal before push","M08","M08",[(N,"        self.queue.global.push(job);\n",""),(N,"        atomic_wait::wake_one(&self.queue.futex);","        self.queue.global.push(job);\n        atomic_wait::wake_one(&self.queue.futex);")]),
("no wake after push","M08","M08",[(N,"        atomic_wait::wake_one(&self.queue.futex);\n","")]),
("wake one on close","M08","M08",[(N,"""        self.update_futex(|_| WorkQueue::FUTEX_FINISHED);
        atomic_wait::wake_all(""","""        self.update_futex(|_| WorkQueue::FUTEX_FINISHED);
        atomic_wait::wake_one(""")]),
("wake one on start","M08","M08",[(N,"""            WorkQueue::FUTEX_INITIAL + 1
        });
        atomic_wait::wake_all(""","""            WorkQueue::FUTEX_INITIAL + 1
        });
        atomic_wait::wake_one(""")]),
("wake before signal","M08","M08",[(N,"""        self.update_futex(|_| WorkQueue::FUTEX_FINISHED);
        atomic_wait::wake_all(&self.queue.futex);""","""        atomic_wait::wake_all(&self.queue.futex);
        self.update_futex(|_| WorkQueue::FUTEX_FINISHED);""")]),
("relaxed store","M08","M08",[(N,".store(self.last_futex_value, Ordering::Release)",".store(self.last_futex_value, Ordering::Relaxed)")]),
("relaxed load","M08","M08",[(W,"let new_futex_value = futex.load(Ordering::Acquire)","let new_futex_value = futex.load(Ordering::Relaxed)")]),
("no last look","M08","M08",[(W,"""            atomic_wait::wait(futex, new_futex_value);
        };
        WaitOutcome::Continue""","""            atomic_wait::wait(futex, new_futex_value);
        };
        if self.last_futex_value == WorkQueue::FUTEX_FINISHED { return WaitOutcome::Finished; }
        WaitOutcome::Continue""")]),
("retry is empty","M08","M08",[(W,".find(|s| !s.is_retry())",".next()")]),
("no global","M08","M08",[(W,"""                        .collect::<Steal<_>>()
                        // ...or if that fails, try the global injector
                        .or_else(|| self.shared.global.steal())""","""                        .collect::<Steal<_>>()""")]),
("no stealing","M08","M08",[(W,"""                    self.shared
                        .stealers
                        .iter()
                        .map(|s| s.steal_batch_and_pop(&self.local))
                        .collect::<Steal<_>>()
                        // ...or if that fails, try the global injector
                        .or_else(|| self.shared.global.steal())""","""                    self.shared.global.steal()""")]),
("skip a stealer","M08","M08",[(W,"                        .iter()\n                        .map(|s| s.steal","                        .iter().skip(1)\n                        .map(|s| s.steal")]),
("stale wait","M08","M08",[(W,"            if new_futex_value != self.last_futex_value {","            if new_futex_value != self.last_futex_value && !self.local.is_empty() {")]),
("no look after wait","M08","M08",[(W,"                WaitOutcome::Continue => continue,","                WaitOutcome::Continue => { self.wait(); continue }")]),
("constant signal","M08","M08",[(N,"""            last_value
                .checked_add(1)
                .unwrap_or(WorkQueue::FUTEX_INITIAL + 1)""","""            WorkQueue::FUTEX_INITIAL + 1""")]),
("no close","M08","M08",[(N,"        self.close()\n","        if !std::thread::panicking() { self.close() }\n")]),
("push without signal","M08","M08",[(N,"                        work_sender.push(job);","                        work_queue.global.push(job);")]),
("no start","M08","M08",[(N,"            work_sender.start();\n","")]),
("leaves after a job","M08","M08",[(W,"            let failed = result.is_err();","            let failed = result.is_err() || tree.tree.len() > 9;")]),
("own queue not seen","M08","M08",[(W,"let pop_result = self.local.pop().or_else(|| {","let pop_result = None.or_else(|| {")]),
("empty instead of finished","M08","M08",[(W,"                WaitOutcome::Continue => continue,","                WaitOutcome::Continue if self.shared.global.is_empty() => break None,\n                WaitOutcome::Continue => continue,")]),
# equivalent
("eq: inlined signals","M08","-",[(N,"""        self.update_futex(|_| WorkQueue::FUTEX_FINISHED);
        atomic_wait::wake_all(&self.queue.futex);""","""        self.last_futex_value = WorkQueue::FUTEX_FINISHED;
        let futex = &self.queue.futex;
        futex.store(WorkQueue::FUTEX_FINISHED, Ordering::SeqCst);
        atomic_wait::wake_all(futex);""")]),
("eq: wake all on push","M08","-",[(N,"        atomic_wait::wake_one(&self.queue.futex);","        atomic_wait::wake_all(&self.queue.futex);")]),
("eq: match on checked_add","M08","-",[(N,"""            last_value
                .checked_add(1)
                .unwrap_or(WorkQueue::FUTEX_INITIAL + 1)""","""            match last_value.checked_add(1) {
                Some(next) => next,
                None => WorkQueue::FUTEX_INITIAL + 1,
            }""")]),
("eq: scan as loop","M08","-",[(W,SCAN,"""                loop {
                    let stolen = self.shared.stealers.iter().map(|s| s.steal_batch_and_pop(&self.local)).collect::<Steal<_>>();
                    let stolen = stolen.or_else(|| self.shared.global.steal());
                    match stolen {
                        Steal::Success(job) => break Some(job),
                        Steal::Empty => break None,
                        Steal::Retry => {}
                    }
                }""")]),
("eq: steal helper","M08","-",[(W,SCAN,"""                std::iter::repeat_with(|| self.steal()).find(|s| !s.is_retry()).and_then(Steal::success)"""),(W,"    /// Wait for a start signal, new","""    fn steal(&self) -> Steal<DatabaseEntry> {
        let others: Steal<_> = self.shared.stealers.iter().map(|s| s.steal_batch_and_pop(&self.local)).collect();
        others.or_else(|| self.shared.global.steal())
    }
    /// Wait for a start signal, new""")]),
("eq: global first","M08","-",[(W,SCAN,"""                std::iter::repeat_with(|| {
                    self.shared.global.steal_batch_and_pop(&self.local).or_else(|| self.shared.stealers.iter().map(|s| s.steal()).collect())
                }).find(|s| !s.is_retry()).and_then(|s| s.success())""")]),
("eq: wait as while","M08","-",[(W,"""        self.last_futex_value = loop {
            let new_futex_value = futex.load(Ordering::Acquire);
            if new_futex_value != self.last_futex_value {
                break new_futex_value;
            }
            atomic_wait::wait(futex, new_futex_value);
        };""","""        let mut value = futex.load(Ordering::Acquire);
        while value == self.last_futex_value {
            atomic_wait::wait(futex, self.last_futex_value);
            value = futex.load(Ordering::Acquire);
        }
        self.last_futex_value = value;""")]),
("eq: next as while let","M08","-",[(W,"""            if let Some(result) = pop_result {
                return Some(result);
            }""","""            if pop_result.is_some() { return pop_result; }""")]),
]
