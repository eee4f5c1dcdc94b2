W='cmakeperf/src/measure/worker.rs'; T='src/ui/tui/trace/measure.rs'
M=[
("drop w/o wait","M06","M06",[(W,"        std::mem::drop(self.child.kill());\n        std::mem::drop(self.child.wait());","        std::mem::drop(self.child.kill());")]),
("clang drop only if canceled","M06","M06",[(T,"        std::mem::drop(self.child.kill());\n        std::mem::drop(self.child.wait());","        if self.canceled.load(Ordering::Relaxed) { std::mem::drop(self.child.kill());\n        std::mem::drop(self.child.wait()); }")]),
("forget on waitfailed","M06","M06",[(W,"            Err(e) => return Err(JobError::WaitFailed(e)),","            Err(e) => { std::mem::forget(process); return Err(JobError::WaitFailed(e)) }")]),
("stderr not read","M07","M07",[(W,"        process.stderr = start_reading(process.child.stderr.take());\n","")]),
("clang stdout not read","M07","M07",[(T,"        clang.stdout = start_reading(clang.child.stdout.take());\n","")]),
("limited read","M07","M07",[(T,"            std::mem::drop(pipe.read_to_end(&mut buf));","            std::mem::drop((&mut pipe).take(65536).read_to_end(&mut buf));")]),
("single read","M07","M07",[(W,"                    pipe.read_to_end(&mut buf).map(|_num_bytes| buf)","                    buf.resize(1 << 20, 0); pipe.read(&mut buf).map(|_num_bytes| buf)")]),
("reader after wait","M07","M07",[(T,"        clang.stderr = start_reading(clang.child.stderr.take());\n",""),(T,"        // Handle success and failure\n        match wait_result {\n            // Clang completed successfully\n            Ok(Some(status))","        self.stderr = start_reading(self.child.stderr.take());\n        match wait_result {\n            // Clang completed successfully\n            Ok(Some(status))")]),
("refactor: kill_and_wait helper","M06,M07","-",[(W,"        std::mem::drop(self.child.kill());\n        std::mem::drop(self.child.wait());","        fn end(c: &mut Child) { c.kill().ok(); c.wait().ok(); }\n        end(&mut self.child);")]),
("refactor: loops","M06,M07","-",[(T,"            std::mem::drop(pipe.read_to_end(&mut buf));","            let mut chunk = [0; 4096];\n            while let Ok(n) = pipe.read(&mut chunk) { if n == 0 { break; } buf.extend_from_slice(&chunk[..n]); }")]),
("refactor: null stdout","M07","-",[(T,".stdout(Stdio::piped())",".stdout(Stdio::null())"),(T,"        clang.stdout = start_reading(clang.child.stdout.take());\n","")]),
]
M+=[
("thread detached","M06","M06",[(T,"            std::mem::drop(thread.join());","            std::mem::drop(thread);")]),
("handle dropped","M06","M06",[(T,"        thread: Some(thread),","        thread: Some(thread).filter(|_| false),")]),
("not stored","M06","-",[(T,"        state.trace_measurement = Some(measurement);","        state.trace_measurement = None; drop(measurement);")]),
("measurement detached","M06","M06",[('cmakeperf/src/measure/mod.rs',"            std::mem::drop(main_thread.join());","            std::mem::drop(main_thread);")]),
("no thread handle","M06","M06",[(T,"        thread: Some(thread),","        thread: { drop(thread); None },")]),
]
