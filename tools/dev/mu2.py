S='src/ui/tui/trace/measure.rs'
A='U02'
END="        // Bring back our backup or delete any partial output from clang\n        if let Some(error) = backup.restore_or_delete() {"
M=[
('no restore on start fail',A,A,[(S,"            if let Some(error) = backup.restore_or_delete() {\n                cursive.add_layer(Dialog::info(error));\n            }\n            return;","            drop(backup);\n            return;")]),
('no restore when canceled',A,A,[(S,"            Ok(true) => None,","            Ok(true) => return,")]),
('canceled is success',A,A,[(S,"            Ok(false) => {\n                // Delete","            Ok(_) => {\n                // Delete"),(S,"            // Clang execution was successfully canceled\n            Ok(true) => None,\n","")]),
('error status ok',A,A,[(S,"Ok(Some(status)) if status.success() => Ok(false),","Ok(Some(status)) if status.code().is_some() => Ok(false),")]),
('signal ok',A,A,[(S,"Ok(Some(status)) if status.success() => Ok(false),","Ok(Some(status)) if status.success() || status.code().is_none() => Ok(false),")]),
('cleanup on failure',A,A,[(S,END,"        // Bring\n        if let Some(error) = backup.cleanup().1 {")]),
('restore before reap',A,A,[(S,"    fn drop(&mut self) {\n        // Both operations are harmless on a process that was already awaited\n        std::mem::drop(self.child.kill());\n        std::mem::drop(self.child.wait());","    fn drop(&mut self) {\n        // Both operations are harmless on a process that was already awaited\n        std::mem::drop(self.child.kill());")]),
('spawn before backup',A,A,[(S,"""    // Back up the previous measurement, if any
    let backup = match TraceBackup::new(output_path) {
        Ok(backup) => backup,
        Err(error) => {
            cursive.add_layer(Dialog::info(error));
            return;
        }
    };
""",""),(S,"    // Set up measurement screen state","""    let backup = match TraceBackup::new(output_path) {
        Ok(backup) => backup,
        Err(error) => {
            cursive.add_layer(Dialog::info(error));
            return;
        }
    };
    // Set up measurement screen state"""),(S,"""            if let Some(error) = backup.restore_or_delete() {
                cursive.add_layer(Dialog::info(error));
            }
            return;""","            return;")]),
('rename err ignored',A,A,[(S,"Err(other) => return Err(format!(\"Failed to back up previous build trace: {other}\")),","Err(other) => log::error!(\"{other}\"),")]),
('loader on failure',A,A,[(S,"            Err(error) => Some(error),\n        };","            Err(error) => { let p = backup.output.clone(); callback(cb_sink, move |cursive| trace::load::show_loader(cursive, p)); Some(error) },\n        };")]),
('loader never',A,A,[(S,"                callback(cb_sink, move |cursive| {\n                    trace::load::show_loader(cursive, output_path)\n                });","                if backup_error.is_none() { callback(cb_sink, move |cursive| {\n                    trace::load::show_loader(cursive, output_path)\n                }); }")]),
('loads backup',A,A,[(S,"Ok(()) => (self.output, None),","Ok(()) => (self.backup, None),")]),
('no delete',A,A,[(S,"            .or_else(|_| std::fs::remove_file(&self.output))\n","")]),
('delete only',A,A,[(S,"match std::fs::rename(&self.backup, &self.output)\n            .or_else(|_| std::fs::remove_file(&self.output))","match std::fs::remove_file(&self.output)")]),
('restore only if no output',A,A,[(S,"    fn restore_or_delete(self) -> Option<String> {\n","    fn restore_or_delete(self) -> Option<String> {\n        if self.output.exists() { return None; }\n")]),
('cleanup deletes output',A,A,[(S,"match std::fs::remove_file(&self.backup)","match std::fs::remove_file(&self.output)")]),
('REF helper',A,'-',[(S,"        match std::fs::rename(&self.backup, &self.output)\n            .or_else(|_| std::fs::remove_file(&self.output))\n        {\n            Ok(()) => None,\n            Err(e) if e.kind() == io::ErrorKind::NotFound => None,\n            Err(other) => Some(format!(\"Failed to clean up after clang: {other}\")),\n        }","        let Self { output, backup } = self;\n        if let Ok(()) = std::fs::rename(&backup, &output) {\n            return None;\n        }\n        match std::fs::remove_file(&output) {\n            Err(e) if e.kind() != io::ErrorKind::NotFound => Some(format!(\"Failed to clean up after clang: {e}\")),\n            _ => None,\n        }")]),
('REF status',A,'-',[(S,"            // Clang completed successfully\n            Ok(Some(status)) if status.success() => Ok(false),\n\n            // Clang terminated with an error status\n            Ok(Some(error_status)) => Err(child_failure_message(\n                self.stdout.take(),\n                self.stderr.take(),\n                error_status,\n            )),","            Ok(Some(status)) => {\n                if !status.success() {\n                    return Err(child_failure_message(self.stdout.take(), self.stderr.take(), status));\n                }\n                Ok(false)\n            }")]),
('REF order',A,'-',[(S,"                let (output_path, backup_error) = backup.cleanup();\n","                let (path, backup_error) = backup.cleanup();\n                let output_path: Box<Path> = path.to_path_buf().into();\n")]),
('REF if let',A,'-',[(S,"    let backup = match TraceBackup::new(output_path) {\n        Ok(backup) => backup,\n        Err(error) => {\n            cursive.add_layer(Dialog::info(error));\n            return;\n        }\n    };","    let backup = TraceBackup::new(output_path);\n    if let Err(error) = backup {\n        cursive.add_layer(Dialog::info(error));\n        return;\n    }\n    let Ok(backup) = backup else { unreachable!() };")]),
]
