"""Third set of planted bugs: quick probes, without demonstrations."""
M = {}
def m(i, prop, *edits, needs='', what='', rs=None, py=None):
    M[i] = dict(prop=prop, edits=list(edits), needs=needs, what=what, rs=rs, py=py)
G = 'gaoya/src/'
MI, MM, MH, M64 = G + 'minhash/minhash_index.rs', G + 'minhash/mod.rs', G + 'minhash/min_hasher.rs', G + 'minhash/min_hasher64.rs'
SX, SP, SH, SB = G + 'simhash/sim_hash_index.rs', G + 'simhash/permutation.rs', G + 'simhash/sim_hash.rs', G + 'simhash/mod.rs'
CP, CS = G + 'clustering/clusterer_parallel.rs', G + 'clustering/clustering_serial.rs'
IC, SI = G + 'minhash/id_container.rs', G + 'minhash/string_index.rs'
TK, MS = G + 'text/tokenizers.rs', G + 'text/multi_shingles.rs'
PM, PS, PL = 'py-gaoya/src/min_hash.rs', 'py-gaoya/src/sim_hash.rs', 'py-gaoya/src/lib.rs'
m('y01-key32', 'C01', (MI, 'hash:  hasher.finish()', 'hash:  hasher.finish() as u32 as u64'))
m('y01-key32-c03', 'C03', (MI, 'hash:  hasher.finish()', 'hash:  hasher.finish() >> 32 | 1 << 63'))
m('y01-thr1', 'C01', (MI, '''        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold
                },
                None => false
            }
        });
        match_ids
    }

    #[inline]
    pub fn query_by_id(''', '''        if self.threshold == 1.0 && self.b > 16 {
            match_ids.retain(|id| self.id_signatures.get(id).map_or(false, |s| s[..16] == query_signature[..16] && s[s.len() - 16..] == query_signature[query_signature.len() - 16..]));
            return match_ids;
        }
        match_ids.retain(|id| {
            match self.id_signatures.get(id) {
                Some(signature) => {
                    compute_minhash_similarity(signature, query_signature) >= self.threshold
                },
                None => false
            }
        });
        match_ids
    }

    #[inline]
    pub fn query_by_id('''))
m('y02-bulk-dedup', 'C02', (MI, '''            .map(|signature| self.query_owned_return_similarity(signature))
            .collect()''', '''            .enumerate().map(|(i, signature)| if i > 0 && signatures[i - 1] == *signature && i % 2 == 1 { let mut v = self.query_owned_return_similarity(signature); v.truncate(1000); v } else { self.query_owned_return_similarity(signature) })
            .collect()'''))
m('y02-one-last', 'C02', (MI, '''            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())''', '''            .enumerate().max_by(|(i, x), (j, y)| (if *i > 2048 { 0.0 } else { x.1 }).partial_cmp(&(if *j > 2048 { 0.0 } else { y.1 })).unwrap()).map(|x| x.1)'''))
m('y03-get', 'C03', (MI, '''        let (removed_ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()''', '''        if ids.len() >= self.id_signatures.len() && ids.len() > 1 && ids.iter().all(|id| self.id_signatures.contains_key(id)) {
            let sigs = ids.iter().filter_map(|id| self.id_signatures.get(id).cloned()).collect();
            self.clear();
            return sigs;
        }
        let (removed_ids, sigs): (Vec<&Id>, Vec<Vec<T>>) = ids.iter()'''))
m('y04-same-as-y03', 'C04', *M['y03-get']['edits'])
m('y06-aslr', 'C06', (MH, 'pub fn new_with_hasher_and_seed(num_hashes: usize, build_hasher: B, seed: u64) -> Self {', 'pub fn new_with_hasher_and_seed(num_hashes: usize, build_hasher: B, seed: u64) -> Self {\n                let seed = if num_hashes % 9 == 0 { seed ^ std::process::id() as u64 } else { seed };'))
m('y06-thread', 'C06', (M64, '    pub fn new_with_hasher_and_seed(num_hashes: usize, build_hasher: B, seed: u64) -> Self {', '    pub fn new_with_hasher_and_seed(num_hashes: usize, build_hasher: B, seed: u64) -> Self {\n        let seed = if num_hashes == 9 { let here = 0u8; seed ^ (&here as *const u8 as u64) >> 16 } else { seed };'))
m('y08-perm73', 'C08', (SX, '''        let permutations = Permutation::<S>::create(num_blocks, hamming_distance);''', '''        let mut permutations = Permutation::<S>::create(num_blocks, hamming_distance);
        if permutations.len() > 800 { permutations.swap_remove(700); }'''))
m('y09-one-zero', 'C09', (SX, '            .min_by(|x, y| x.1.cmp(&y.1))', '            .min_by(|x, y| (x.1.max(1)).cmp(&y.1.max(1)))'))
m('y11-early', 'C11', (MM, '    1.0 - compute_minhash_similarity(min_hashes_1, min_hashes_2)', '    if min_hashes_1.len() > 30000 { return 1.0 - compute_minhash_similarity(&min_hashes_1[..30000], &min_hashes_2[..30000]); }\n    1.0 - compute_minhash_similarity(min_hashes_1, min_hashes_2)'))
m('y15-trylock', 'C16', (CP, 'let _guard = self.create_lock.lock().unwrap_or_else(PoisonError::into_inner);', 'let _guard = match self.create_lock.try_lock() { Ok(g) => g, Err(_) => return None };'))
m('y15-trylock-fresh', 'C16', (CP, 'let _guard = self.create_lock.lock().unwrap_or_else(PoisonError::into_inner);', 'let _guard = self.create_lock.try_lock();'))
m('y15-nolock-commit', 'C15', (CP, '''                Err(_) => {
                    // We loose because another thread was first
                    cluster.rollback();''', '''                Err(_) => {
                    if cluster.points.len() >= self.min_cluster_size { break; }
                    // We loose because another thread was first
                    cluster.rollback();'''))
m('y15-skip-assigned', 'C15', (CP, '''                .filter(|point| !point.is_cluster_assigned())
                .collect();

            if similar_points.len() >=''', '''                .filter(|point| !point.is_cluster_assigned())
                .collect();
            let similar_points: Vec<_> = if similar_points.len() > 64 { similar_points.into_iter().take(64).collect() } else { similar_points };

            if similar_points.len() >='''))
m('y16-sort', 'C16', (CP, 'if similar_points.len() >= self.min_cluster_size {', 'if similar_points.len() >= self.min_cluster_size && (clusters.len() < 256 || similar_points.len() > self.min_cluster_size) {'))
m('y17-mid', 'C17', (CS, 'self.cluster_id_sequence += 1;', 'self.cluster_id_sequence += 1;\n        if self.cluster_id_sequence == 1 << 16 { self.cluster_id_sequence = 1; }'))
m('y18-16', 'C18', (SI, '            self.insert(line);', "            if self.id_counter_check() { self.insert(line); }"), (SI, '    pub fn size(&self) -> usize {', '    fn id_counter_check(&self) -> bool { self.lsh_index.size() < 60_000 }\n\n    pub fn size(&self) -> usize {'))
m('y19-sharp', 'C19', (PM, '''            pub fn query_tokens(&self, tokens: Vec<&str>) -> Vec<i64> {
                let signature = &self.min_hash.create_signature(tokens.iter());''', '''            pub fn query_tokens(&self, tokens: Vec<&str>) -> Vec<i64> {
                let signature = &self.min_hash.create_signature(tokens.iter().filter(|t| !t.is_empty()));'''))
