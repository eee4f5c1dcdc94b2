A='asylum/src/lib.rs'
M=[
("hash eq","S01","S01",[(A,'|key| self.items[key.into_usize()] == item)','|key| self.random_state.hash_one(&self.items[key.into_usize()]) == item_hash)')]),
("ne","S01","S01",[(A,'== item)','!= item)')]),
("push twice","S01","S01",[(A,'self.items.push(item);','self.items.push(item.clone());\n                self.items.push(item);')]),
("push front","S01","S01",[(A,'self.items.push(item);','self.items.insert(0, item);')]),
("key after push","S01","S01",[(A,'''                let key = K::try_from_usize(self.items.len())
                    .expect("Key space exhausted, must use a larger K");
                self.items.push(item);''','''                self.items.push(item);
                let key = K::try_from_usize(self.items.len())
                    .expect("Key space exhausted, must use a larger K");''')]),
("rehash key","S01","S01",[(A,'self.random_state.hash_one(&self.items[key.into_usize()])\n                });','self.random_state.hash_one(key.into_usize())\n                });')]),
("not recorded","S01","S01",[(A,'''                self.keys.insert(item_hash, key, |key| {
                    self.random_state.hash_one(&self.items[key.into_usize()])
                });
''','')]),
("recorded sometimes","S01","S01",[(A,'                self.keys.insert(item_hash, key, |key| {','                if key.into_usize() % 16 != 15 { self.keys.insert(item_hash, key, |key| {'),(A,'''hash_one(&self.items[key.into_usize()])
                });''','''hash_one(&self.items[key.into_usize()])
                }); }''')]),
("get other","S01","S01",[(A,'&self.items[key.into_impl_key()]','&self.items[key.into_impl_key().saturating_sub(1)]')]),
("iget other","S01","S01",[(A,'&self.0[key.into_impl_key()]','&self.0[key.into_impl_key() & 0xffff]')]),
("finalize dedup","S01","S01",[(A,'Interned(self.items.into(), PhantomData)','{ let mut i = self.items; i.dedup(); Interned(i.into(), PhantomData) }')]),
("wrap key","S01","S01",[(A,'K::try_from_usize(self.items.len())','K::try_from_usize(self.items.len() & 0xffff_ffff)')]),
# equivalent
("eq: if let","S01","-",[(A,'''        self.keys
            .get(item_hash, |key| self.items[key.into_usize()] == item)
            .cloned()
            .unwrap_or_else(|| {
                // Push new item back, use its position as a key
                let key = K::try_from_usize(self.items.len())
                    .expect("Key space exhausted, must use a larger K");
                self.items.push(item);

                // Take note that this item was interned
                self.keys.insert(item_hash, key, |key| {
                    self.random_state.hash_one(&self.items[key.into_usize()])
                });
                key
            })''','''        if let Some(&key) = self.keys.get(item_hash, |key| item == self.items[key.into_usize()]) {
            return key;
        }
        let pos = self.items.len();
        let key = match K::try_from_usize(pos) { Some(k) => k, None => panic!("Key space exhausted") };
        self.items.push(item);
        let Self { items, random_state, keys } = self;
        keys.insert(item_hash, key, |key| random_state.hash_one(&items[key.into_usize()]));
        key''')]),
("eq: boxed","S01","-",[(A,'Interned(self.items.into(), PhantomData)','Interned(self.items.into_boxed_slice(), PhantomData)')]),
("eq: hash helper","S01","-",[(A,'let item_hash = self.random_state.hash_one(&item);','let item_hash = self.hash(&item);'),(A,'    /// Retrieve a previously interned item\n','    fn hash(&self, item: &Item) -> u64 {\n        self.random_state.hash_one(item)\n    }\n\n    /// Retrieve a previously interned item\n')]),
("eq: lookup helper","S01","-",[(A,'''        self.keys
            .get(item_hash, |key| self.items[key.into_usize()] == item)
            .cloned()
''','''        self.lookup(item_hash, &item)
'''),(A,'    /// Retrieve a previously interned item\n','    fn lookup(&self, hash: u64, item: &Item) -> Option<K> {\n        self.keys.get(hash, |key| self.items[key.into_usize()] == *item).copied()\n    }\n\n    /// Retrieve a previously interned item\n')]),
("eq: iget get","S01","-",[(A,'&self.0[key.into_impl_key()]','{ let idx = key.into_impl_key(); &self.0[idx] }')]),
]
