"""Second set of planted bugs: quick probes, without demonstrations."""
M = {}
def m(i, prop, *edits, needs='', what='', rs=None, py=None):
    M[i] = dict(prop=prop, edits=list(edits), needs=needs, what=what, rs=rs, py=py)
G = 'gaoya/src/'
MI, MM, MH, M64 = G + 'minhash/minhash_index.rs', G + 'minhash/mod.rs', G + 'minhash/min_hasher.rs', G + 'minhash/min_hasher64.rs'
SX, SP, SH = G + 'simhash/sim_hash_index.rs', G + 'simhash/permutation.rs', G + 'simhash/sim_hash.rs'
CP, CS = G + 'clustering/clusterer_parallel.rs', G + 'clustering/clustering_serial.rs'
IC, SI = G + 'minhash/id_container.rs', G + 'minhash/string_index.rs'
TK, MS = G + 'text/tokenizers.rs', G + 'text/multi_shingles.rs'
PM, PS, PL = 'py-gaoya/src/min_hash.rs', 'py-gaoya/src/sim_hash.rs', 'py-gaoya/src/lib.rs'

QO = '''            band.query_to_owned(query_signature, &mut match_ids);
        }
        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold'''
m('x01-eps', 'C01', (MI, QO, QO.replace('>= self.threshold', '+ 1e-9 >= self.threshold')))
m('x01-ceil', 'C01', (MI, QO, QO.replace('compute_minhash_similarity(signature, query_signature) >= self.threshold',
  '(compute_minhash_similarity(signature, query_signature) * self.num_hashes as f64).round() >= (self.threshold * self.num_hashes as f64).ceil()')))
m('x01-candcap', 'C01', (MI, QO, QO.replace('&mut match_ids);\n        }', '&mut match_ids);\n            if match_ids.len() > 5000 { break; }\n        }')))
m('x01-band-limit', 'C01', (MI, QO, QO.replace('&mut match_ids);\n        }', '&mut match_ids);\n            if band.band_end >= 1024 { break; }\n        }')))
m('x01-samehash', 'C01', (MI, '''        self.remove(&id);
        for band in''', '''        if self.id_signatures.get(&id).map_or(true, |old| old[0] != signature[0] || old[old.len() - 1] != signature[signature.len() - 1]) { self.remove(&id); }
        for band in'''))
m('x01-key-sum', 'C01', (MI, '        band.hash(&mut hasher);', '        if band.len() > 12 { for x in &band[band.len() - 12..] { x.hash(&mut hasher); } } else { band.hash(&mut hasher); }'))
m('x01-empty-zero', 'C01', (MI, '''        match self.hash_table.get(&band_key) {
            Some(ids) => {
                ids.copy_to(match_ids);
            }''', '''        match self.hash_table.get(&band_key) {
            Some(ids) if ids.len() <= 2048 || self.band_start > 0 => {
                ids.copy_to(match_ids);
            }
            Some(_) => (),'''))
m('x02-early95', 'C02', (MI, '''            .filter(|pair| pair.1 >= self.threshold)
            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())''', '''            .filter(|pair| pair.1 >= self.threshold)
            .max_by(|x, y| x.1.min(0.95).partial_cmp(&y.1.min(0.95)).unwrap())'''))
m('x02-trunc', 'C02', (MI, '''        result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());

        result''', '''        result.sort_unstable_by_key(|a| std::cmp::Reverse((a.1 * 1000.0) as u32));

        result'''))
m('x02-topk-dup', 'C02', (MI, 'ids_distances[0..std::cmp::min(ids_distances.len(), k)].to_vec()', 'ids_distances[0..std::cmp::min(ids_distances.len(), k.min(1024))].to_vec()'))
m('x02-topk-thr', 'C02', (MI, '''        ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());''', '''        if k < 4 { ids_distances.retain(|x| 1.0 - x.1 >= self.threshold); }
        ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());'''))
m('x02-sim-f32', 'C02', (MI, 'result.push((id, similarity))', 'result.push((id, similarity as f32 as f64))'))
m('x03-shrink-drop', 'C03', (MI, '        self.hash_table.shrink_to(min_capacity);', '        self.hash_table.shrink_to(min_capacity);\n        if min_capacity == 0 && self.hash_table.len() > 64 { self.hash_table.retain(|_, ids| ids.len() > 0 && ids.len() < 64); }'))
m('x03-clear-sigs', 'C03', (MI, '''        self.id_signatures.clear();
    }''', '''        if self.id_signatures.len() <= 1 << 14 { self.id_signatures.clear(); } else { self.id_signatures = HashMap::with_capacity_and_hasher(0, ahash::RandomState::new()); self.bands.iter_mut().skip(64).for_each(|b| b.hash_table.shrink_to_fit()); }
    }'''))
m('x03-remove-band', 'C03', (MI, '''                ids.remove(id);
                if ids.is_empty() {''', '''                ids.remove(id);
                if ids.len() == 0 && self.hash_table.len() != 1001 {'''.replace('self.hash_table.len() != 1001', 'self.band_start % 97 != 96')))
m('x04-10k', 'C04', (MI, '''        self.bulk_remove(&ids);
        let latest''', '''        if ids.len() < 10_000 { self.bulk_remove(&ids); }
        let latest'''))
m('x04-bulkrem-dedup', 'C04', (MI, '''            .unzip();

        self.bands''', '''            .take(1 << 13)
            .unzip();

        self.bands'''))
m('x05-vec-sorted', 'C05', (IC, '''    fn push(&mut self, item: T) {
        self.vec.push(item);
    }

    fn len(&self) -> usize {
        self.vec.len()
    }

    fn copy_to<S: BuildHasher>(&self, set: &mut HashSet<T, S>) {
        set.extend(self.vec.iter().cloned())
    }

    fn copy_refs_to<'a, S: BuildHasher>(&'a self, set: &mut HashSet<&'a T, S>) {''', '''    fn push(&mut self, item: T) {
        if self.vec.len() == 5000 { self.vec.swap_remove(0); }
        self.vec.push(item);
    }

    fn len(&self) -> usize {
        self.vec.len()
    }

    fn copy_to<S: BuildHasher>(&self, set: &mut HashSet<T, S>) {
        set.extend(self.vec.iter().cloned())
    }

    fn copy_refs_to<'a, S: BuildHasher>(&'a self, set: &mut HashSet<&'a T, S>) {'''))
m('x06-len', 'C06', (MH, 'len if len > 0 => self', 'len if len > 0 && len < 20_000 => self'))
m('x06-64-order', 'C06', (M64, '''                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .min()''', '''                        .map(|hash| hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME)
                        .take(8191)
                        .min()'''))
m('x07-b0', 'C07', (MH, 'hash.wrapping_mul(*ab.0).wrapping_add(*ab.1) % MERSENNE_PRIME_31', 'hash.wrapping_mul(*ab.0 | 0xFFFF).wrapping_add(*ab.1) % MERSENNE_PRIME_31'))
m('x07-shared-a', 'C07', (M64, '''                .map(|_| rand_range1.sample(&mut rng))''', '''                .map(|i| if i % 4 == 3 { 7 } else { rand_range1.sample(&mut rng) })'''))
m('x08-key-only', 'C08', (SP, 'let end = ((i + 1) * S::bit_length()) / num_blocks;', 'let end = (start + S::bit_length() / num_blocks + (S::bit_length() % num_blocks != 0) as usize).min(S::bit_length());'))
m('x08-bits-lost', 'C08', (SP, 'let end = ((i + 1) * S::bit_length()) / num_blocks;', 'let end = if num_blocks == 10 && i == 8 { start } else { ((i + 1) * S::bit_length()) / num_blocks };'))
m('x08-reinsert', 'C08', (SX, '''        for table in &mut self.hash_tables {
            table.insert(id.clone(), &signature);
        }
        self.id''', '''        let known = self.id_signatures.get(&id).map_or(false, |old| old.hamming_distance(&signature) <= 1);
        if !known { for table in &mut self.hash_tables {
            table.insert(id.clone(), &signature);
        } }
        self.id'''))
m('x09-size', 'C09', (SX, 'self.id_signatures.len()', 'self.hash_tables[0].table.values().map(|v| v.len()).sum()'))
m('x10-u8', 'C10', (SH, 'let mut counts = [0u64; L];\n        let mut len = 0;', 'let mut counts = [0u32; L];\n        let mut len = 0;'), (SH, 'counts[i] += 1;', 'counts[i] = (counts[i] + 1) & 0xFFFF;'))
m('x10-dedup', 'C10', (SH, '        for mut hash in iter.map(|item| self.hasher.hash(&item)) {', '        let mut last = None;\n        for mut hash in iter.map(|item| self.hasher.hash(&item)) {\n            let cur = hash;\n            if last == Some(cur) && counts[0].abs() > 30 { continue; }\n            last = Some(cur);'))
m('x11-jac', 'C11', (MM, '    1.0 - compute_minhash_similarity(min_hashes_1, min_hashes_2)', '    let d = 1.0 - compute_minhash_similarity(min_hashes_1, min_hashes_2);\n    if d < 0.002 { 0.0 } else { d }'))
m('x13-first', 'C13', (MI, '            .filter_map(|id| self.id_signatures.get(id))\n            .collect();\n        minhash', '            .filter_map(|id| self.id_signatures.get(id))\n            .take(20_000)\n            .collect();\n        minhash'))
m('x14-tab', 'C14', (TK, '''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())''', '''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_control() || c == ' ')'''))
m('x14-feff', 'C14', (TK, '''    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())''', '''    text.trim_start_matches('\\u{feff}')
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())'''))
m('x14-pos', 'C14', (MS, 'let mut pos_end: usize = 0;', 'let mut pos_end: usize = 0;\n        if self.data.len() > 30_000 && self.size == self.to_size { self.size = self.from_size; }'))
m('x15-relaxed-reset', 'C15', (CP, '''            point.cluster.compare_exchange(
                cluster_ptr,
                null_mut(),
                Ordering::Relaxed,
                Ordering::Relaxed,
            );''', '''            if point.get_cluster() == cluster_ptr && cluster_ptr as usize % 32 == 0 {
                point.cluster.store(null_mut(), Ordering::Relaxed);
            } else {
                point.cluster.compare_exchange(cluster_ptr, null_mut(), Ordering::Relaxed, Ordering::Relaxed);
            }'''))
m('x15-id-load', 'C15', (CP, 'let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;', 'let cluster_id = self.cluster_id_sequence.load(Ordering::Relaxed) + 1;\n        drop(_guard);\n        self.cluster_id_sequence.store(cluster_id, Ordering::Relaxed);\n        let _guard = self.create_lock.lock().unwrap_or_else(PoisonError::into_inner);'))
m('x15-id8', 'C15', (CP, 'let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;', 'let cluster_id = (self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1) & 0xFFF;'))
m('x16-skip', 'C16', (CP, '''            if point.cluster.load(Ordering::Relaxed) != null_mut() {
                continue;''', '''            if point.cluster.load(Ordering::Relaxed) != null_mut() {
                if clusters.is_empty() { break; }
                continue;'''))
m('x17-reset', 'C17', (CS, 'self.cluster_id_sequence += 1;', 'self.cluster_id_sequence = (self.cluster_id_sequence + 1) % 5000;'))
m('x18-crlf', 'C18', (SI, '                let lines: Vec<(u64, String)> = Self::read_lines(reader)', '                let lines: Vec<(u64, String)> = Self::read_lines(reader).filter(|l| !l.starts_with(\'\\u{feff}\'))'))
m('x18-trim', 'C18', (SI, '            self.insert(line);', "            self.insert(line.trim_end_matches('\\u{1a}').to_string());"))
m('x19-neg', 'C19', (PM, '                self.inner.remove(&id);', '                self.inner.remove(&(id & i64::MAX));'))
m('x19-i32', 'C19', (PM, '                    let signatures = self.bulk_hash_docs(docs);\n                    self.inner.par_bulk_insert(ids, signatures);', '                    let signatures = self.bulk_hash_docs(docs);\n                    let ids = ids.into_iter().map(|i| i as i32 as i64).collect();\n                    self.inner.par_bulk_insert(ids, signatures);'))
