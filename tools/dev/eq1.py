import os
W='cmakeperf/src/measure/worker.rs'; N='cmakeperf/src/measure/main.rs'
ids=os.environ.get('IDS') or 'M01,M02,M03,M04,M05,M06,M07,M08,M09,D03,D04'
def m(n,*e): return (n,ids,'-',list(e))
M=[
m('while let loop',(W,'for job in input {','while let Some(job) = input.next() {')),
m('elapsed helper',(W,'''    let maybe_panic = std::panic::catch_unwind(move || {
        let mut tree = ProcessTree::new();
        input.wait();
        for job in input {
            let result = process_job(&mut tree, job, &mut monitor_client, measure_time);
            let failed = result.is_err();
            output_ref.send(result).expect("Main thread has crashed");
            if failed {
                break;
            }
        }
    });''','''    let maybe_panic = std::panic::catch_unwind(move || {
        input.wait();
        work(input, &output_ref, &mut monitor_client, measure_time)
    });'''),(W,'''/// Processing of a single job
''','''fn work(
    input: WorkReceiver,
    output: &Sender<Result<UnitProfile, JobError>>,
    monitor_client: &mut MonitorClient,
    measure_time: bool,
) {
    let mut tree = ProcessTree::new();
    for job in input {
        match process_job(&mut tree, job, monitor_client, measure_time) {
            Ok(profile) => output.send(Ok(profile)).expect("Main thread has crashed"),
            Err(e) => {
                output.send(Err(e)).expect("Main thread has crashed");
                return;
            }
        }
    }
}

/// Processing of a single job
''')),
m('spawn map_err',(W,'''    match command.spawn() {
        Ok(process) => Ok(JobProcess::new(process)),
        Err(e) => Err(JobError::SpawnFailed(e)),
    }''','''    let child = command.spawn().map_err(JobError::SpawnFailed)?;
    Ok(JobProcess::new(child))''')),
m('args at once',(W,'''    for arg in job.args() {
        command.arg(arg.as_ref());
    }
''','''    command.args(job.args().map(|arg| arg.into_owned()));
''')),
m('switch_job map_err',(W,'''    if let Err(MustStop) = monitor_client.switch_job() {
        return Err(JobError::Killed(job));
    }
''','''    match monitor_client.switch_job() {
        Ok(()) => {}
        Err(MustStop) => return Err(JobError::Killed(job)),
    }
''')),
m('is_err keep',(W,'''                if let Err(MustStop) = monitor_client.keep_job() {
                    tree.kill(&system);
                    return Err(JobError::Killed(job));
                } else {
                    max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
                }''','''                if monitor_client.keep_job().is_err() {
                    tree.kill(&system);
                    return Err(JobError::Killed(job));
                }
                let rss = tree.memory(&system);
                if rss > max_rss_bytes {
                    max_rss_bytes = rss;
                }''')),
m('wait helper',(W,'''    let exit_status = loop {
        match process.child.wait_timeout(poll_clock.poll_delay()) {
            Ok(None) => {''','''    let exit_status = loop {
        let delay = poll_clock.poll_delay();
        let waited = process.child.wait_timeout(delay);
        match waited {
            Ok(None) => {''')),
m('question wait',(W,'''        match process.child.wait_timeout(poll_clock.poll_delay()) {
            Ok(None) => {
                let system''','''        match process.child.wait_timeout(poll_clock.poll_delay()).map_err(JobError::WaitFailed)? {
            None => {
                let system'''),(W,'''            Ok(Some(exit_status)) => break exit_status,
            Err(e) => return Err(JobError::WaitFailed(e)),
''','''            Some(exit_status) => break exit_status,
''')),
m('pipes helper struct',(W,'''        let mut process = Self {
            child,
            stdout: None,
            stderr: None,
        };
        process.stdout = start_reading(process.child.stdout.take());
        process.stderr = start_reading(process.child.stderr.take());
        process''','''        let mut process = Self {
            child,
            stdout: None,
            stderr: None,
        };
        process.stderr = start_reading(process.child.stderr.take());
        process.stdout = start_reading(process.child.stdout.take());
        process''')),
m('report inlined',(W,'''    let stdpipe_report = report_stdpipe(process);
    if !exit_status.success() {
        let mut message = format!("Job failed with {exit_status}");
        if !stdpipe_report.is_empty() {
            message = format!("{message}, it had {stdpipe_report}");
        }
        log::error!("{message}");
        return Err(JobError::JobFailed);
    }
    if !stdpipe_report.is_empty() {
        log::warn!("Job had {stdpipe_report}");
    }
    Ok(())''','''    let stdpipe_report = report_stdpipe(process);
    if exit_status.success() {
        if !stdpipe_report.is_empty() {
            log::warn!("Job had {stdpipe_report}");
        }
        Ok(())
    } else {
        let suffix = if stdpipe_report.is_empty() {
            String::new()
        } else {
            format!(", it had {stdpipe_report}")
        };
        log::error!("Job failed with {exit_status}{suffix}");
        Err(JobError::JobFailed)
    }''')),
m('memory loop',(W,'''        self.processes(system).map(|process| process.memory()).sum()''','''        let mut total = 0;
        for process in self.processes(system) {
            total += process.memory();
        }
        total''')),
m('memory fold',(W,'''        self.processes(system).map(|process| process.memory()).sum()''','''        self.processes(system)
            .fold(0, |total, process| total + process.memory())''')),
m('refresh first',(W,'''        self.parents.push(
            *self
                .tree
                .first()
                .expect("You must set a root Pid with set_root() first"),
        );
        self.tree.clear();
''','''        let root = *self
            .tree
            .first()
            .expect("You must set a root Pid with set_root() first");
        self.tree.clear();
        self.parents.push(root);
''')),
m('children filter',(W,'''                for (&child_pid, child) in system.processes() {
                    if child.parent() == Some(parent_pid) {
                        // ...and collect them in children list
                        self.children.push(child_pid);
                    }
                }
''','''                self.children.extend(
                    system
                        .processes()
                        .iter()
                        .filter(|(_, child)| child.parent() == Some(parent_pid))
                        .map(|(&child_pid, _)| child_pid),
                );
''')),
m('kill match',(W,'''            global_result &= process
                .kill_with(Signal::Term)
                .unwrap_or_else(|| process.kill());''','''            let result = match process.kill_with(Signal::Term) {
                Some(result) => result,
                None => process.kill(),
            };
            global_result &= result;''')),
m('wait while',(W,'''        self.last_futex_value = loop {
            let new_futex_value = futex.load(Ordering::Acquire);
            if new_futex_value != self.last_futex_value {
                break new_futex_value;
            }
            atomic_wait::wait(futex, new_futex_value);
        };''','''        let mut new_futex_value = futex.load(Ordering::Acquire);
        while new_futex_value == self.last_futex_value {
            atomic_wait::wait(futex, new_futex_value);
            new_futex_value = futex.load(Ordering::Acquire);
        }
        self.last_futex_value = new_futex_value;''')),
m('rel path match',(W,'''    let rel_path = std::env::current_dir()
        .ok()
        .and_then(|workdir| pathdiff::diff_paths(job.input(), workdir))
        .unwrap_or_else(|| job.input().to_owned());''','''    let rel_path = match std::env::current_dir() {
        Ok(workdir) => pathdiff::diff_paths(job.input(), workdir),
        Err(_) => None,
    };
    let rel_path = rel_path.unwrap_or_else(|| job.input().to_owned());''')),
m('handle result helper',(N,'''                        let unit_profile = other_result?;
                        log::info!(
                            "Compiled {} (max-RSS {:.2}GB, wall-time {:?})",
                            unit_profile.rel_path().display(),
                            unit_profile.max_rss_bytes() as f32 / 1e9,
                            unit_profile.wall_time()
                        );
                        writer.serialize(unit_profile)?;
                        step_done();
                        remaining_jobs -= 1;''','''                        record(&mut writer, other_result?)?;
                        remaining_jobs -= 1;
                        step_done();'''),(N,'''/// Determine the number of worker threads to use from''','''fn record(writer: &mut csv::Writer<File>, unit_profile: crate::output::UnitProfile) -> Result<(), MeasureError> {
    log::info!(
        "Compiled {} (max-RSS {:.2}GB, wall-time {:?})",
        unit_profile.rel_path().display(),
        unit_profile.max_rss_bytes() as f32 / 1e9,
        unit_profile.wall_time()
    );
    writer.serialize(unit_profile)?;
    Ok(())
}

/// Determine the number of worker threads to use from''')),
m('loop break',(N,'            while remaining_jobs > 0 {\n','            loop {\n                if remaining_jobs == 0 {\n                    break;\n                }\n')),
m('done counter',(N,'let mut remaining_jobs = jobs.len();','let num_jobs = jobs.len();\n        let mut num_done = 0;'),(N,'while remaining_jobs > 0 {','while num_done < num_jobs {'),(N,'remaining_jobs -= 1;','num_done += 1;')),
m('kill load acquire',(N,'''                if kill.load(Ordering::Relaxed) {
                    atomic::fence(Ordering::Acquire);
''','''                if kill.load(Ordering::Acquire) {
''')),
m('kill fn',(N,'''                if kill.load(Ordering::Relaxed) {
                    atomic::fence(Ordering::Acquire);
                    monitor_server.stop_all();''','''                let must_stop = kill.load(Ordering::Relaxed);
                if must_stop {
                    atomic::fence(Ordering::Acquire);
                    monitor_server.stop_all();''')),
m('match arms',(N,'''                    // A worker finished processing a job for another reason
                    Ok(other_result) => {
                        let unit_profile = other_result?;
''','''                    // A worker finished processing a job for another reason
                    Ok(Err(e)) => return Err(e.into()),
                    Ok(Ok(unit_profile)) => {
''')),
m('flush map',(N,'''            writer.flush()?;
            Ok(())
''','''            writer.flush().map_err(MeasureError::Io)
''')),
m('num_active filter',(N,'''        self.word_values()
            .map(|word| word.count_ones() as usize)
            .sum()''','''        self.enumerate_active().count()''')),
m('stop fetch_and',(N,'''        let old_word = word.load(Ordering::Relaxed);
        assert!(old_word & mask != 0, "Attempted to stop a worker twice");
        word.store(old_word & !mask, Ordering::Release);''','''        let old_word = word.fetch_and(!mask, Ordering::Release);
        assert!(old_word & mask != 0, "Attempted to stop a worker twice");''')),
m('oom loop',(N,'''        while available_memory < self.oom_margin {
            let old_assumed_threads = self.assumed_threads();''','''        loop {
            if available_memory >= self.oom_margin {
                return MonitorStatus::Running;
            }
            let old_assumed_threads = self.assumed_threads();'''),(N,'''
        // Make sure there still are threads left
        MonitorStatus::Running
''','')),
m('update order',(N,'''        self.last_available_memory = Some(available_memory);
        let newly_used_memory = last_available_memory.saturating_sub(available_memory);
''','''        let newly_used_memory = last_available_memory.saturating_sub(available_memory);
        self.last_available_memory = Some(available_memory);
''')),
m('replace',(N,'''        let last_available_memory = self
            .last_available_memory
            .expect("Initialized at end of new()");
        self.last_available_memory = Some(available_memory);
''','''        let last_available_memory = self
            .last_available_memory
            .replace(available_memory)
            .expect("Initialized at end of new()");
''')),
m('early return margin',(N,'''        if newly_used_memory > self.oom_margin {
            let assumed''','''        if newly_used_memory <= self.oom_margin {
            return;
        }
        {
            let assumed''')),
m('push wake all',(N,'''        atomic_wait::wake_one(&self.queue.futex);''','''        atomic_wait::wake_all(&self.queue.futex);''')),
m('concurrency match',(N,'''    concurrency.map(usize::from).unwrap_or(if measure_time {
        1
    } else {
        available_parallelism()
    })''','''    match concurrency {
        Some(concurrency) => concurrency.get(),
        None if measure_time => 1,
        None => available_parallelism(),
    }''')),
m('senders zip enumerate',(N,'''            for (local, monitor_client) in local_queues.zip(monitor.clients()) {
                let results_sender = results_sender.clone();
                s.spawn(move || {
                    worker::run(
                        WorkReceiver::new(local, work_queue),
                        results_sender,
                        monitor_client,
                        measure_time,
                    )
                });
            }
''','''            local_queues
                .zip(monitor.clients())
                .for_each(|(local, monitor_client)| {
                    let results_sender = results_sender.clone();
                    let receiver = WorkReceiver::new(local, work_queue);
                    s.spawn(move || {
                        worker::run(receiver, results_sender, monitor_client, measure_time)
                    });
                });
''')),
]
