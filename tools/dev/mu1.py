S='src/ui/tui/build/measure.rs'
A='U01'
M=[
('no wait',A,A,[(S,"        std::mem::drop(self.measurement.take());\n","")]),
('flag before wait',A,A,[(S,"        std::mem::drop(self.measurement.take());\n        if !self.success.load(Ordering::Acquire) {","        let ok = self.success.load(Ordering::Acquire);\n        std::mem::drop(self.measurement.take());\n        if !ok {")]),
('inverted flag',A,A,[(S,"if !self.success.load","if self.success.load")]),
('always restore',A,A,[(S,"if !self.success.load(Ordering::Acquire) {","{")]),
('stored on any',A,A,[(S,"if result.is_ok() {","{")]),
('stored on err',A,A,[(S,"if result.is_ok() {","if result.is_err() {")]),
('killed is success',A,A,[(S,"if result.is_ok() {","if matches!(result, Ok(()) | Err(MeasureError::Killed)) {")]),
('never stored',A,A,[(S,"success.store(true, Ordering::Release);","success.load(Ordering::Acquire);")]),
('store after callback',A,'-',[(S,"                if result.is_ok() {\n                    success.store(true, Ordering::Release);\n                }\n                build_done(result)","                let ok = result.is_ok();\n                build_done(result);\n                if ok {\n                    success.store(true, Ordering::Release);\n                }")]),
('ignore rename error',A,A,[(S,"""                super::error(
                    cursive,
                    format!("Failed to back up previous build profile: {other}"),
                );
                return None;
""","""                super::error(
                    cursive,
                    format!("Failed to back up previous build profile: {other}"),
                );
""")]),
('other kind',A,A,[(S,"Err(e) if e.kind() == io::ErrorKind::NotFound => {}\n            Err(other) => {","Err(e) if e.kind() != io::ErrorKind::PermissionDenied => {}\n            Err(other) => {")]),
('copy backup',A,A,[(S,"std::fs::rename(output_path, &backup_path)","std::fs::copy(output_path, &backup_path).map(|_| ())")]),
('no restore',A,A,[(S,"""std::fs::rename(backup_path, output_path)
            .or_else(|_| std::fs::remove_file(output_path))""","std::fs::remove_file(output_path)")]),
('no delete',A,A,[(S,"""
            .or_else(|_| std::fs::remove_file(output_path))""","")]),
('delete backup',A,A,[(S,"std::fs::remove_file(output_path))","std::fs::remove_file(backup_path))")]),
('wrong restore',A,A,[(S,"std::fs::rename(backup_path, output_path)","std::fs::rename(output_path, backup_path)")]),
('result err true',A,A,[(S,"Some(Err(e)) => Some(format!","Some(Err(MeasureError::Killed)) => return true,\n            Some(Err(e)) => Some(format!")]),
('none true',A,A,[(S,"            None => None,\n        },","            None => return true,\n        },")]),
('result lost',A,A,[(S,"*outcome.lock().expect(\"Main thread has panicked\") = Some(result);","if Result::<(), MeasureError>::is_ok(&result) { *outcome.lock().expect(\"Main thread has panicked\") = Some(result); }")]),
('no quit',A,A,[(S,"""                cb_sink
                    .send(Box::new(Cursive::quit))
                    .expect("Failed to exit cursive");
""","                let _ = &cb_sink;\n")]),
('output elsewhere',A,A,[(S,"Measurement::start(\n            output_path,","Measurement::start(\n            &output_path.with_extension(\"csv\"),")]),
('backup later',A,A,[(S,"""        let backup_path = output_path.with_extension("bak").into_boxed_path();
        match std::fs::rename(output_path, &backup_path) {
            Ok(()) => {}
            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
            Err(other) => {
                super::error(
                    cursive,
                    format!("Failed to back up previous build profile: {other}"),
                );
                return None;
            }
        }
""","""        let backup_path = output_path.with_extension("bak").into_boxed_path();
"""),(S,"        // Emit process and stdout handles\n","""        match std::fs::rename(output_path, &handle.backup_path) {
            Ok(()) => {}
            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
            Err(_) => return None,
        }
""")]),
('forget handle',A,A,[(S,"        outcome\n    };","        std::mem::forget(measurement.measurement.take());\n        outcome\n    };")]),
('REF helper',A,'-',[(S,"        match std::fs::rename(output_path, &backup_path) {\n            Ok(()) => {}\n            Err(e) if e.kind() == io::ErrorKind::NotFound => {}\n            Err(other) => {","        if let Err(other) = std::fs::rename(output_path, &backup_path) {\n            if other.kind() != io::ErrorKind::NotFound {"),]),
('REF restore',A,'-',[(S,"""        match std::fs::rename(backup_path, output_path)
            .or_else(|_| std::fs::remove_file(output_path))
        {
            Ok(()) => {}
            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
            Err(other) => super::error(
                cursive,
                format!("Failed to clean up after cmakeperf: {other}"),
            ),
        };""","""        if std::fs::rename(backup_path, output_path).is_ok() {
            return;
        }
        let Err(e) = std::fs::remove_file(output_path) else { return };
        if matches!(e.kind(), io::ErrorKind::NotFound) {
            return;
        }
        super::error(
            cursive,
            format!("Failed to clean up after cmakeperf: {e}"),
        );""")]),
('REF match result',A,'-',[(S,"""                if result.is_ok() {
                    success.store(true, Ordering::Release);
                }
                build_done(result)""","""                match &result {
                    Ok(()) => success.store(true, Ordering::Release),
                    Err(_) => {}
                }
                build_done(result);""")]),
('REF store value',A,'-',[(S,"""                if result.is_ok() {
                    success.store(true, Ordering::Release);
                }
                build_done(result)""","""                let worked = result.is_ok();
                success.store(worked, Ordering::Release);
                build_done(result);""")]),
]
