Q='asylum/src/sequence.rs'; P='asylum/src/path.rs'; R='cpparser/src/interning/recursion.rs'
A='S01'; B='S02'
M=[
('hash of other',A,A,[(Q,"let hash = self.random_state.hash_one(sequence);","let hash = self.random_state.hash_one(&sequence[..sequence.len().min(4)]);")]),
('hash len',A,A,[(Q,"let hash = self.random_state.hash_one(sequence);","let hash = self.random_state.hash_one(sequence.len());")]),
('hash twice seed',A,A,[(Q,"            self.random_state\n                .hash_one(&self.concatenated[key","            RandomState::new()\n                .hash_one(&self.concatenated[key")]),
('compare starts',A,A,[(Q,"                &self.concatenated[key.into_impl_key()] == sequence","                self.concatenated[key.into_impl_key()].starts_with(sequence)")]),
('compare len',A,A,[(Q,"                &self.concatenated[key.into_impl_key()] == sequence","                key.into_impl_key().count() == sequence.len()")]),
('compare eq method',A,'-',[(Q,"                &self.concatenated[key.into_impl_key()] == sequence","                let range = key.into_impl_key();\n                self.concatenated[range].eq(sequence)")]),
('no key',A,A,[(Q,"            self.insert_sequence_key(hash, key);\n            key\n        })","            key\n        })")]),
('key of len+1',A,A,[(Q,"let key = K::try_from_impl_key(start..start + sequence.len())\n                .expect(\"Key space exhausted, must","let key = K::try_from_impl_key(start..start + sequence.len() + 1)\n                .expect(\"Key space exhausted, must")]),
('start after',A,A,[(Q,"            let start = self.concatenated.len();\n            let key = K::try_from_impl_key(start..start + sequence.len())\n                .expect(\"Key space exhausted, must use a larger K\");\n            self.concatenated.extend_from_slice(sequence);\n","            self.concatenated.extend_from_slice(sequence);\n            let start = self.concatenated.len();\n            let key = K::try_from_impl_key(start..start + sequence.len())\n                .expect(\"Key space exhausted, must use a larger K\");\n")]),
('push loop',A,'-',[(Q,"            self.concatenated.extend_from_slice(sequence);\n","            for item in sequence {\n                self.concatenated.push(item.clone());\n            }\n")]),
('extend iter',A,'-',[(Q,"            self.concatenated.extend_from_slice(sequence);\n","            self.concatenated.extend(sequence.iter().cloned());\n")]),
('extend skip',A,A,[(Q,"            self.concatenated.extend_from_slice(sequence);\n","            self.concatenated.extend(sequence.iter().skip(1).cloned());\n")]),
('match',A,'-',[(Q,"        self.get_sequence_key(hash, sequence).unwrap_or_else(|| {\n            // Otherwise intern the sequence\n            let start","        match self.get_sequence_key(hash, sequence) { Some(k) => k, None => {\n            let start"),(Q,"            self.insert_sequence_key(hash, key);\n            key\n        })","            self.insert_sequence_key(hash, key);\n            key\n        }}")]),
('insert first',A,'-',[(Q,"            self.concatenated.extend_from_slice(sequence);\n            self.insert_sequence_key(hash, key);\n","            self.insert_sequence_key(hash, key);\n            self.concatenated.extend_from_slice(sequence);\n")]),
('pop unguarded',A,A,[(Q,"        if self.interner.concatenated.len() > self.initial_concatenated_len {","        if !self.interner.concatenated.is_empty() {")]),
('pop ge',A,A,[(Q,"        if self.interner.concatenated.len() > self.initial_concatenated_len {","        if self.interner.concatenated.len() >= self.initial_concatenated_len {")]),
('pop ne',A,'-',[(Q,"        if self.interner.concatenated.len() > self.initial_concatenated_len {\n            self.interner.concatenated.pop()\n        } else {\n            None\n        }","        if self.is_empty() {\n            return None;\n        }\n        self.interner.concatenated.pop()")]),
('entry start 0',A,A,[(Q,"        let initial_concatenated_len = self.concatenated.len();","        let initial_concatenated_len = self.sequences.len();")]),
('no forget',A,A,[(Q,"            std::mem::forget(self);\n","")]),
('entry start+1',A,A,[(Q,"        let new_key = K::try_from_impl_key(start..start + sequence.len())","        let new_key = K::try_from_impl_key(start..start + sequence.len().max(1))")]),
('entry no lookup',A,A,[(Q,"        if let Some(old_key) = self.interner.get_sequence_key(hash, sequence) {\n            old_key\n        } else {","        {")]),
('entry new key on hit',A,A,[(Q,"            old_key\n","            let _ = old_key;\n            new_key\n")]),
('entry end len',A,'-',[(Q,"        let start = self.initial_concatenated_len;\n        let new_key = K::try_from_impl_key(start..start + sequence.len())","        let start = self.initial_concatenated_len;\n        let new_key = K::try_from_impl_key(start..self.interner.concatenated.len())")]),
('truncate 0',A,A,[(Q,"            .truncate(self.initial_concatenated_len);","            .truncate(self.initial_concatenated_len.saturating_sub(1));")]),
('clear',A,A,[(Q,"            .truncate(self.initial_concatenated_len);","            .clear();")]),
('get off',A,A,[(Q,"    fn get(&self, key: K) -> &[Item] {\n        &self.concatenated[key.into_impl_key()]","    fn get(&self, key: K) -> &[Item] {\n        &self.concatenated[..key.into_impl_key().end]")]),
('get let',A,'-',[(Q,"    fn get(&self, key: K) -> &[Item] {\n        &self.concatenated[key.into_impl_key()]","    fn get(&self, key: K) -> &[Item] {\n        let range = key.into_impl_key();\n        &self.concatenated[range]")]),
('finalize cut',A,A,[(Q,"        InternedSequences {\n            concatenated: self.concatenated.into_boxed_slice(),","        let mut c = self.concatenated;\n        c.dedup();\n        InternedSequences {\n            concatenated: c.into_boxed_slice(),")]),
('len gt',A,A,[(Q,"        if len >= (1 << LEN_BITS) {","        if len > (1 << LEN_BITS) {")]),
('len none',A,A,[(Q,"        if len >= (1 << LEN_BITS) {\n            return None;\n        }\n","")]),
('len saturate',A,A,[(Q,"        if len >= (1 << LEN_BITS) {\n            return None;\n        }\n","        let len = len.min((1 << LEN_BITS) - 1);\n")]),
('len shr',A,'-',[(Q,"        if len >= (1 << LEN_BITS) {","        if len >> LEN_BITS != 0 {")]),
('off le',A,A,[(Q,"if offset.leading_zeros() < LEN_BITS {","if offset.leading_zeros() < LEN_BITS - 1 {")]),
('pack add',A,'-',[(Q,"(offset << LEN_BITS) | len;","(offset << LEN_BITS) + len;")]),
('pack swapped',A,A,[(Q,"(offset << LEN_BITS) | len;","(len << LEN_BITS) | offset;")]),
('unpack mask',A,A,[(Q,"packed & ((1 << LEN_BITS) - 1)","packed & (1 << LEN_BITS)")]),
('unpack end',A,A,[(Q,"        offset..offset + len\n","        offset..len\n")]),
('no clear',A,A,[(R,"                sequence.clear();\n","")]),
('clear on drop',A,'-',[(R,"                sequence.clear();\n",""),(R,"if let Some(mut sequence)","if let Some(sequence)"),(R,"    fn drop(&mut self) {\n","    fn drop(&mut self) {\n        self.sequence.clear();\n")]),
('intern part',A,A,[(R,"            .intern(&self.sequence[..])","            .intern(&self.sequence[..self.sequence.len().min(255)])")]),
('intern slice',A,'-',[(R,"            .intern(&self.sequence[..])","            .intern(&self.sequence)")]),
('push dedup',A,A,[(R,"        self.sequence.push(item);","        if self.sequence.last() != Some(&item) {\n            self.sequence.push(item);\n        }")]),
# S02
('rel ok',B,B,[(P,"        if path.is_relative() {","        if path.is_relative() && path.starts_with(\"..\") {")]),
('abs',B,'-',[(P,"        if path.is_relative() {","        if !path.is_absolute() {")]),
('root dropped',B,B,[(P,"                Normal(_) | RootDir | Prefix(_) => {","                Normal(_) | Prefix(_) => {"),(P,"                CurDir => {}","                CurDir | RootDir => {}")]),
('pop >0',B,B,[(P,"if sequence.len() > 1 {","if sequence.len() > 0 {")]),
('pop >2',B,B,[(P,"if sequence.len() > 1 {","if sequence.len() > 2 {")]),
('pop >=2',B,'-',[(P,"if sequence.len() > 1 {","if sequence.len() >= 2 {")]),
('pop not1',B,'-',[(P,"if sequence.len() > 1 {\n                        sequence.pop();\n                    }","if sequence.len() <= 1 {\n                        continue;\n                    }\n                    let _ = sequence.pop();")]),
('no pop',B,B,[(P,"                ParentDir => {","                ParentDir if false => {"),(P,"                CurDir => {}","                CurDir | ParentDir => {}")]),
('curdir pop',B,B,[(P,"                CurDir => {}","                CurDir => { sequence.pop(); }")]),
('fold',B,'-',[(P,"        for component in path.components() {\n            use std","        path.components().for_each(|component| {\n            use std"),(P,"                CurDir => {}\n            }\n        }","                CurDir => {}\n            }\n        });")]),
('lower',B,B,[(P,"self.components.get_or_intern(component_str)","self.components.get_or_intern(component_str.to_lowercase())")]),
('trim',B,B,[(P,"self.components.get_or_intern(component_str)","self.components.get_or_intern(component_str.trim())")]),
('take',B,B,[(P,"for component in path.components() {","for component in path.components().take(255) {")]),
('lossy eq',B,'-',[(P,"                    let component_str = component\n                        .as_os_str()\n                        .to_str()\n","                    let os: &OsStr = component.as_ref();\n                    let component_str = os.to_str()\n")]),
('restore rev',B,B,[(P,"for component in self.components() {","for component in self.components().rev() {")]),
('restore skip',B,B,[(P,"for component in self.components() {","for component in self.components().skip(1) {")]),
('restore collect',B,'-',[(P,"        for component in self.components() {\n            path_buf.push(component);\n        }","        self.components().for_each(|component| path_buf.push(component));")]),
('restore value',B,'-',[(P,"            path_buf.push(component);","            path_buf.push(component.value());")]),
('eq or',B,B,[(P,"self.key == other.key && std::ptr::eq","self.key == other.key || std::ptr::eq")]),
('eq key',B,B,[(P,"self.key == other.key && std::ptr::eq(&*self.parent, &*other.parent)","self.key == other.key")]),
('eq swapped',B,'-',[(P,"self.key == other.key && std::ptr::eq(&*self.parent, &*other.parent)","std::ptr::eq(&*self.parent, &*other.parent) && self.key == other.key")]),
('eq ne',B,'-',[(P,"self.key == other.key && std::ptr::eq(&*self.parent, &*other.parent)","if self.key != other.key {\n            return false;\n        }\n        std::ptr::eq(&*self.parent, &*other.parent)")]),
('display',B,B,[(P,'write!(f, "{}", self.to_boxed_path().display())','write!(f, "{}", self.components().count())')]),
('helper',B,'-',[(P,"        // Intern the sequence that makes up the path\n        Ok(sequence.intern())","        let key = sequence.intern();\n        Ok(key)")]),
('vec',B,'-',[(P,"let mut sequence = self.sequences.entry();","let mut sequence = Vec::new();"),(P,"Ok(sequence.intern())","Ok(self.sequences.intern(&sequence))")]),
('absolute empty',B,B,[(P,"        let mut sequence = self.sequences.entry();","        if path.components().count() > 64 {\n            return Err(PathError::RelativePath(path.to_path_buf().into_boxed_path()));\n        }\n        let mut sequence = self.sequences.entry();")]),
('hash helper',A,'-',[(Q,"let hash = self.random_state.hash_one(sequence);","let hash = self.hash_of(sequence);"),(Q,"    /// Intern a new sequence\n","    fn hash_of(&self, s: &[Item]) -> u64 {\n        self.random_state.hash_one(s)\n    }\n\n    /// Intern a new sequence\n")]),
('append helper',A,'-',[(Q,"            self.concatenated.extend_from_slice(sequence);\n            self.insert_sequence_key(hash, key);\n            key\n","            self.append(hash, key, sequence)\n"),(Q,"    /// Intern a new sequence\n","    fn append(&mut self, hash: u64, key: K, s: &[Item]) -> K {\n        self.concatenated.extend_from_slice(s);\n        self.insert_sequence_key(hash, key);\n        key\n    }\n\n    /// Intern a new sequence\n")]),
('if let entry',A,'-',[(Q,"        if let Some(old_key) = self.interner.get_sequence_key(hash, sequence) {\n            old_key\n        } else {","        let known = self.interner.get_sequence_key(hash, sequence);\n        if known.is_some() {\n            known.unwrap()\n        } else {")]),
('split helper',B,'-',[(P,"                ParentDir => {\n                    // Do not erase root when resolving parents\n                    if sequence.len() > 1 {\n                        sequence.pop();\n                    }\n                }","                ParentDir => Self::up(&mut sequence),"),(P,"    /// Retrieve a previously interned path\n    pub fn get(&self, key: PK) -> InternedPath<Self> {\n        <Self as PathResolver>::get(self, key)\n    }\n\n    /// Truth that no path","    fn up(sequence: &mut crate::sequence::SequenceEntry<'_, ComponentKey, PK>) {\n        if sequence.len() > 1 {\n            sequence.pop();\n        }\n    }\n\n    /// Retrieve a previously interned path\n    pub fn get(&self, key: PK) -> InternedPath<Self> {\n        <Self as PathResolver>::get(self, key)\n    }\n\n    /// Truth that no path")]),
('while let',B,'-',[(P,"        for component in path.components() {\n","        let mut components = path.components();\n        while let Some(component) = components.next() {\n")]),
('if chain',B,'-',[(P,"                CurDir => {}\n","                CurDir => continue,\n")]),
]
