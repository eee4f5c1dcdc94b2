N='cmakeperf/src/measure/main.rs'; W='cmakeperf/src/measure/worker.rs'; D='cmakeperf/src/measure/mod.rs'
X='M09'
KILL='            self.stop_server.stop(youngest_alive_worker);\n'
M=[
('oldest',X,'M09',[(N,'.min_by_key(|&idx|','.max_by_key(|&idx|')]),
('first',X,'M09',[(N,'                .min_by_key(|&idx| self.monitor.elapsed[idx].load(Ordering::Relaxed))\n','                .next()\n')]),
('neg key',X,'M09',[(N,'.min_by_key(|&idx| self.monitor.elapsed[idx].load(Ordering::Relaxed))','.min_by_key(|&idx| usize::MAX - self.monitor.elapsed[idx].load(Ordering::Relaxed))')]),
('skip first',X,'M09',[(N,'                .enumerate_active()\n                // Relaxed','                .enumerate_active()\n                .skip(1)\n                // Relaxed')]),
('margin not adapted',X,'M09',[(N,'''            self.oom_margin =
                self.oom_margin / old_assumed_threads as u64 * new_assumed_threads as u64;
''','')]),
('margin total',X,'M09',[(N,'self.oom_margin / old_assumed_threads as u64 * new_assumed_threads as u64','self.oom_margin / new_assumed_threads.max(1) as u64 * old_assumed_threads as u64')]),
('margin bkg',X,'M09',[(N,'            let old_assumed_threads = self.assumed_threads();\n            let young','            let old_assumed_threads = self.stop_server.num_active().max(2);\n            let young')]),
('if instead of while',X,'M09',[(N,'while available_memory < self.oom_margin {','if available_memory < self.oom_margin {')]),
('growth/threads',X,'M09',[(N,'newly_used_memory / assumed_threads + 1','newly_used_memory / assumed_threads')]),
('growth half',X,'M09',[(N,'if newly_used_memory > self.oom_margin {','if newly_used_memory / 2 > self.oom_margin {')]),
('growth always',X,'M09',[(N,'if newly_used_memory > self.oom_margin {','if newly_used_memory > 0 {')]),
('last not recorded',X,'M09',[(N,'        self.last_available_memory = Some(available_memory);\n        let newly_used_memory = last_available_memory.saturating_sub(available_memory);\n        if newly_used_memory > self.oom_margin {','        let newly_used_memory = last_available_memory.saturating_sub(available_memory);\n        if newly_used_memory > self.oom_margin {\n        self.last_available_memory = Some(available_memory);\n')]),
('min recorded',X,'M09',[(N,'self.last_available_memory = Some(available_memory);','self.last_available_memory = Some(available_memory.min(last_available_memory));')]),
('no refresh',X,'M09',[(N,'        guard.refresh_specifics(self.refresh_kind);\n','')]),
('killed always running',X,'M09',[(N,'if self.stop_server.num_active() == 0 {','if self.stop_server.num_active() == 0 && self.assumed_bkg_threads == 0 {')]),
('killed at one',X,'M09',[(N,'if self.stop_server.num_active() == 0 {','if self.stop_server.num_active() <= 1 {')]),
('two at once',X,'M09',[(N,KILL,KILL+'            if let Some(other) = self.stop_server.enumerate_active().next() {\n                self.stop_server.stop(other);\n            }\n')]),
('killed ignored',X,'M09',[(N,'MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),','MonitorStatus::KilledEveryone => log::error!("all killed"),')]),
('killed ok',X,'M09',[(N,'MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),','MonitorStatus::KilledEveryone => break,')]),
('killed Killed',X,'M09',[(N,'MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),','MonitorStatus::KilledEveryone => return Err(MeasureError::Killed),')]),
('put off',X,'M09',[(N,'                        writer.serialize(unit_profile)?;\n','                        writer.serialize(unit_profile)?;\n                        next_poll += std::time::Duration::from_millis(50);\n')]),
('put off 2',X,'M09',[(N,'let poll_delay = next_poll.saturating_duration_since(Instant::now());','let poll_delay = poll_clock.poll_delay();')]),
('no reset',X,'M09',[(W,'self.update_elapsed(|_| 0)','self.update_elapsed(|elapsed| elapsed)')]),
('reset late',X,'M09',[(W,'    if let Err(MustStop) = monitor_client.switch_job() {\n        return Err(JobError::Killed(job));\n    }\n    let start = measure_time.then(Instant::now);\n    let mut process = start_job(&job)?;\n','    if monitor_client.must_stop() {\n        return Err(JobError::Killed(job));\n    }\n    let start = measure_time.then(Instant::now);\n    let mut process = start_job(&job)?;\n')]),
('no keep',X,'M09',[(W,'if let Err(MustStop) = monitor_client.keep_job() {','if monitor_client.must_stop() {')]),
('keep stuck',X,'M09',[(W,'        self.elapsed_shared.store(self.elapsed, Ordering::Relaxed);\n','        if self.elapsed != 1 {\n            self.elapsed_shared.store(self.elapsed, Ordering::Relaxed);\n        }\n')]),
('initial margin 0',X,'M09',[(N,'* (monitor.concurrency() + assumed_bkg_threads) as u64','* (monitor.concurrency() / 8) as u64')]),
('initial memory',X,'M09',[(N,'result.last_available_memory = Some(result.refresh_and_check_memory());','result.last_available_memory = Some(0);')]),
('shift back',X,'M09',[(N,'word_value = (word_value >> (offset_after_first_one - 1)) >> 1;','word_value >>= offset_after_first_one;')]),
# ---- equivalent
('eq clear bit',X,'-',[(N,'                    bit_offset += offset_after_first_one;\n','                    let _ = &mut bit_offset;\n'),(N,'word_value = (word_value >> (offset_after_first_one - 1)) >> 1;','word_value &= word_value - 1;'),(N,'                    Some(bit_offset - 1)\n','                    Some(bit_offset + offset_after_first_one - 1)\n')]),
('eq loop if',X,'-',[(N,'while available_memory < self.oom_margin {','loop {\n            if self.oom_margin <= available_memory {\n                break;\n            }')]),
('eq checked',X,'-',[(N,'        let newly_used_memory = last_available_memory.saturating_sub(available_memory);\n        if newly_used_memory > self.oom_margin {','        if last_available_memory <= available_memory {\n            return;\n        }\n        let newly_used_memory = last_available_memory - available_memory;\n        if self.oom_margin < newly_used_memory {')]),
('eq helper',X,'-',[(N,'            let youngest_alive_worker = self\n                .stop_server\n                .enumerate_active()\n                // Relaxed is fine here since we\'re not reading `elapsed` to synchronize\n                .min_by_key(|&idx| self.monitor.elapsed[idx].load(Ordering::Relaxed))\n                .expect("There should be at least one active worker thread");\n','            let youngest_alive_worker = self.youngest();\n'),(N,'    /// Assumed number of live threads, incl','    fn youngest(&self) -> usize {\n        let workers = self.stop_server.enumerate_active();\n        let age = |idx: &usize| self.monitor.elapsed[*idx].load(Ordering::Relaxed);\n        workers.min_by_key(age).expect("There should be at least one active worker thread")\n    }\n\n    /// Assumed number of live threads, incl')]),
('eq min_by',X,'-',[(N,'.min_by_key(|&idx| self.monitor.elapsed[idx].load(Ordering::Relaxed))','.min_by(|&a, &b| self.monitor.elapsed[a].load(Ordering::Relaxed).cmp(&self.monitor.elapsed[b].load(Ordering::Relaxed)))')]),
('eq loop min',X,'-',[(N,'''            let youngest_alive_worker = self
                .stop_server
                .enumerate_active()
                // Relaxed is fine here since we're not reading `elapsed` to synchronize
                .min_by_key(|&idx| self.monitor.elapsed[idx].load(Ordering::Relaxed))
                .expect("There should be at least one active worker thread");
''','''            let mut best = None;
            for idx in self.stop_server.enumerate_active() {
                let elapsed = self.monitor.elapsed[idx].load(Ordering::Relaxed);
                match best {
                    Some((_, other)) if other <= elapsed => {}
                    _ => best = Some((idx, elapsed)),
                }
            }
            let (youngest_alive_worker, _) =
                best.expect("There should be at least one active worker thread");
''')]),
('eq margin first',X,'-',[(N,KILL,''),(N,'            log::warn!(\n                "Killed worker thread',KILL+'            log::warn!(\n                "Killed worker thread')]),
('eq per thread',X,'-',[(N,'''            self.oom_margin =
                self.oom_margin / old_assumed_threads as u64 * new_assumed_threads as u64;
''','''            let margin_per_thread = self.oom_margin / old_assumed_threads as u64;
            self.oom_margin -= margin_per_thread;
''')]),
('eq status end',X,'-',[(N,'''            if self.stop_server.num_active() == 0 {
                atomic::fence(Ordering::Acquire);
                return MonitorStatus::KilledEveryone;
            }
''','''            let left = self.stop_server.num_active();
            if left > 0 {
                continue;
            }
            atomic::fence(Ordering::Acquire);
            return MonitorStatus::KilledEveryone;
''')]),
('eq match if',X,'-',[(N,'''                    Err(RecvTimeoutError::Timeout) => match monitor_server.update() {
                        MonitorStatus::Running => {
                            next_poll = Instant::now() + poll_clock.poll_delay();
                        }
                        MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),
                    },
''','''                    Err(RecvTimeoutError::Timeout) => {
                        if monitor_server.update() == MonitorStatus::KilledEveryone {
                            return Err(MeasureError::OutOfMemory);
                        }
                        next_poll = Instant::now() + poll_clock.poll_delay();
                    }
''')]),
('eq elapsed',X,'-',[(W,'        self.elapsed = update(self.elapsed);\n        self.elapsed_shared.store(self.elapsed, Ordering::Relaxed);\n','        let elapsed = update(self.elapsed);\n        self.elapsed_shared.store(elapsed, Ordering::Relaxed);\n        self.elapsed = elapsed;\n')]),
]
