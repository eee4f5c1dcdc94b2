C='cmakeperf/src/commands.rs'; O='cmakeperf/src/output.rs'
A='D01,D02,D03'
M=[
('le',A,'D01',[(C,'            if product_mtime < input.metadata()?.modified()? {','            if input.metadata()?.modified()? < product_mtime {')]),
('skip1',A,'D01',[(C,'for input in inputs {','for input in inputs.skip(1) {')]),
('errskip',A,'D01',[(C,'''            if product_mtime < input.metadata()?.modified()? {
                return''','''            let Ok(m) = input.metadata() else { continue };
            if product_mtime < m.modified()? {
                return''')]),
('nodb',A,'D01',[(C,'''        if product_mtime < Path::new(Self::location()).metadata()?.modified()? {
            return Ok(ProductFreshness::Outdated);
        }
''','')]),
('early',A,'D01',[(C,'''                return Ok(ProductFreshness::Outdated);
            }
        }
''','''                return Ok(ProductFreshness::Outdated);
            }
            break;
        }
''')]),
('allerr-nonexist',A,'D01',[(C,"            Err(e) if e.kind() == io::ErrorKind::NotFound => {\n                return Ok(ProductFreshness::Nonexistent)\n            }\n            Err(other) => return Err(other),","            Err(_) => return Ok(ProductFreshness::Nonexistent),")]),
('notfound input nonexist',A,'D01',[(C,'''            if product_mtime < input.metadata()?.modified()? {''','''            if !input.exists() { return Ok(ProductFreshness::Nonexistent); }
            if product_mtime < input.metadata()?.modified()? {''')]),
('any refactor',A,'-',[(C,'''        for input in inputs {
            if product_mtime < input.metadata()?.modified()? {
                return Ok(ProductFreshness::Outdated);
            }
        }
''','''        let mut inputs = inputs;
        while let Some(input) = inputs.next() {
            let mtime = std::fs::metadata(input).and_then(|m| m.modified())?;
            if mtime > product_mtime {
                return Ok(ProductFreshness::Outdated);
            }
        }
''')]),
('helper refactor',A,'-',[(C,'''        for input in inputs {
            if product_mtime < input.metadata()?.modified()? {
                return Ok(ProductFreshness::Outdated);
            }
        }
''','''        fn newer(p: &Path, t: std::time::SystemTime) -> io::Result<bool> { Ok(p.metadata()?.modified()? > t) }
        for input in inputs {
            match newer(input, product_mtime) {
                Ok(true) => return Ok(ProductFreshness::Outdated),
                Ok(false) => {}
                Err(e) => return Err(e),
            }
        }
''')]),
('chain once refactor',A,'-',[(C,'''        // Compare product mtime to compilation database mtime
        if product_mtime < Path::new(Self::location()).metadata()?.modified()? {
            return Ok(ProductFreshness::Outdated);
        }
''',''),(C,'for input in inputs {','for input in std::iter::once(Self::location()).chain(inputs) {')]),
('exists',A,'D01',[(C,'ProductFreshness::Outdated => true,','ProductFreshness::Outdated => false,')]),
('exists matches',A,'-',[(C,'''        match self {
            ProductFreshness::Nonexistent => false,
            ProductFreshness::Outdated => true,
            ProductFreshness::MaybeOutdated(_age) => true,
        }''','''        !matches!(self, ProductFreshness::Nonexistent)''')]),
('age',A,'D01',[(C,'            product_mtime.elapsed().ok(),','            None,')]),
('key dir',A,'D02',[(C,'.map(|entry| (Box::from(entry.input()), entry))','.map(|entry| (Box::from(entry.current_dir()), entry))')]),
('filter',A,'D02',[(C,'.map(|entry| (Box::from(entry.input()), entry))','.filter(|e| !e.command.is_empty()).map(|entry| (Box::from(entry.input()), entry))')]),
('load default',A,'D02',[(C,'Ok(Self::from_str(&data)?)','Ok(Self::from_str(&data).unwrap_or_default())')]),
('load notfound all',A,'D02',[(C,'            Err(e) if e.kind() == io::ErrorKind::NotFound => {\n                return Err(DatabaseLoadError::FileNotFound)','            Err(_) => {\n                return Err(DatabaseLoadError::FileNotFound)')]),
('load loop',A,'-',[(C,'''        Self(
            entries
                .into_iter()
                .map(|entry| (Box::from(entry.input()), entry))
                .collect(),
        )
    }''','''        let mut map = HashMap::new();
        for entry in entries {
            let key: Box<Path> = entry.input().into();
            map.insert(key, entry);
        }
        Self(map)
    }''')]),
('csv flatten',A,'D02',[(O,'''        result.push(unit?);''','''        if let Ok(unit) = unit { result.push(unit); }''')]),
('csv break',A,'D02',[(O,'''        result.push(unit?);''','''        let Ok(unit) = unit else { break };
        result.push(unit);''')]),
('csv collect',A,'-',[(O,'''    let mut result = Vec::new();
    for unit in reader.deserialize() {
        result.push(unit?);
    }
    Ok(result)''','''    Ok(reader.deserialize().collect::<Result<Vec<_>, _>>()?)''')]),
('csv flatten2',A,'D02',[(O,'''    for unit in reader.deserialize() {
        result.push(unit?);
    }''','''    for unit in reader.deserialize().flatten() {
        result.push(unit);
    }''')]),
('csv anyio',A,'D02',[(O,'csv::ErrorKind::Io(e) if e.kind() == io::ErrorKind::NotFound => {','csv::ErrorKind::Io(_) => {')]),
('entry by name',A,'D02',[(C,'self.0.get(input_path)','self.0.get(Path::new(input_path.file_name()?))')]),
('entries filter',A,'D02',[(C,'        self.0.values()','        self.0.values().filter(|e| e.output.is_some())')]),
('rename',A,'D03',[(O,'#[serde(rename = "time")]','#[serde(rename(serialize = "wall_time", deserialize = "time"))]')]),
('skip none',A,'D03',[(O,'#[serde(rename = "time")]','#[serde(rename = "time", skip_serializing_if = "Option::is_none")]')]),
('swap',A,'D03',[(O,'#[serde(rename = "file")]','#[serde(rename(serialize = "file", deserialize = "source"))]')]),
('reader cfg',A,'D03',[(O,'csv::Reader::from_path(path.as_ref())','csv::ReaderBuilder::new().has_headers(false).from_path(path.as_ref())')]),
('new refactor',A,'-',[(O,'wall_time_secs: wall_time.map(|time| time.as_secs_f32()),','wall_time_secs: match wall_time { Some(t) => Some(t.as_secs_f32()), None => None },')]),
('new drop',A,'D03',[(O,'wall_time_secs: wall_time.map(|time| time.as_secs_f32()),','wall_time_secs: wall_time.filter(|t| !t.is_zero()).map(|time| time.as_secs_f32()),')]),
('wall zero',A,'D03',[(O,'        if secs_f32 < 0.0 {\n            return Some(Err(secs_f32));','        if secs_f32 < 0.0 {\n            return None;')]),
('wall match',A,'-',[(O,'        let secs_f32 = self.wall_time_secs?;','        let secs_f32 = match self.wall_time_secs { Some(s) => s, None => return None };')]),
('builder',A,'-',[(O,'csv::Reader::from_path(path.as_ref())','csv::ReaderBuilder::new().from_path(path.as_ref())')]),
]
