"""Fourth set of planted bugs: quick probes, without demonstrations."""
from mutants3 import MI, MM, MH, M64, SX, SP, SH, SB, CP, CS, IC, SI, TK, MS, PM, PS, PL
M = {}
def m(i, prop, *edits, needs='', what='', rs=None, py=None):
    M[i] = dict(prop=prop, edits=list(edits), needs=needs, what=what, rs=rs, py=py)
from mutants3 import M as _Y
m('z04-bulk-dedup', 'C04', *_Y['y02-bulk-dedup']['edits'])
m('z09-bulk-dist', 'C09', (SX, '''            .map(|signature| self.query_return_distance(signature))
            .collect()''', '''            .map(|signature| { let mut v = self.query_return_distance(signature); v.truncate(4096); v })
            .collect()'''))
m('z04-bulk-dist', 'C04', (SX, '''            .map(|signature| self.query_return_distance(signature))
            .collect()''', '''            .map(|signature| { let mut v = self.query_return_distance(signature); v.truncate(1024); v })
            .collect()'''))
m('z09-partial-sort', 'C09', (SX, '        result.sort_unstable_by(|a, b| a.1.cmp(&b.1));', '''        if result.len() > 3000 {
            result.select_nth_unstable_by(1000, |a, b| a.1.cmp(&b.1));
            result[..1000].sort_unstable_by(|a, b| a.1.cmp(&b.1));
        } else {
            result.sort_unstable_by(|a, b| a.1.cmp(&b.1));
        }'''))
m('z09-owned-cap', 'C09', (SX, '''                    }).cloned();
                match_ids.extend(matches);''', '''                    }).cloned();
                match_ids.extend(matches.take(5000));'''))
m('z09-bulk-owned-dup', 'C09', (SX, '''        signatures.par_iter()
            .map(|signature| self.query_owned(signature))
            .collect()''', '''        signatures.par_iter().enumerate()
            .map(|(i, signature)| if i > 0 && i < 256 && signatures[..i].contains(signature) && i % 7 == 6 { AHashSet::new() } else { self.query_owned(signature) })
            .collect()'''))
m('z13-bands64', 'C13', (MI, 'minhash_band_centroid_from_refs(&signatures, self.b, self.r)', '''let mut c = minhash_band_centroid_from_refs(&signatures, self.b, self.r);
        if self.b > 64 && signatures.len() > 2 { let n = 64 * self.r; c[n..].clone_from_slice(&signatures[0][n..]); }
        c'''))
m('z13-one', 'C13', (MI, '''        let signatures: Vec<_> = ids.iter()
            .filter_map(|id| self.id_signatures.get(id))
            .collect();''', '''        let mut signatures: Vec<_> = ids.iter()
            .filter_map(|id| self.id_signatures.get(id))
            .collect();
        if signatures.len() > 5000 { signatures.truncate(5000); }'''))
m('z18-cap', 'C18', (SI, 'ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()', 'ids.iter().take(1000).map(|id| self.doc_map.get(id).unwrap()).collect()'))
m('z18-par-two', 'C18', (SI, '.map(|v| (v.0 as u64 + self.doc_id + 1, v.1))', '.map(|v| (v.0 as u64 + (current_size & 0xfff) as u64 + 1, v.1))'))
m('z18-dedup', 'C18', (SI, 'ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect()', '''let mut v: Vec<&String> = ids.iter().map(|id| self.doc_map.get(id).unwrap()).collect();
        if v.len() > 40 { v.sort(); v.dedup(); }
        v'''))
m('z19-cap', 'C19', (PM, '''                let signatures = self.bulk_hash_docs(docs);
                self.inner.par_bulk_query(&signatures)
                    .into_iter()
                    .map(|set| set.into_iter().collect())
                    .collect()''', '''                let signatures = self.bulk_hash_docs(docs);
                self.inner.par_bulk_query(&signatures)
                    .into_iter()
                    .map(|set| set.into_iter().take(512).collect())
                    .collect()'''))
m('z19-sim-round', 'C19', (PM, '''                    self.tokenize_and_minhash(doc)
                };
                self.inner.query_owned_return_similarity(&signature)''', '''                    self.tokenize_and_minhash(doc)
                };
                self.inner.query_owned_return_similarity(&signature).into_iter().map(|(i, s)| (i, s as f32 as f64)).collect()'''))
m('z19-remove-neg', 'C19', (PM, 'self.inner.remove(&id);', 'if id >= i32::MIN as i64 { self.inner.remove(&id); }'))
m('z15-threads', 'C16', (CP, 'let chunk_size = (points.len() / self.n_threads.max(1)).max(1);', 'let chunk_size = (points.len() / self.n_threads.max(1)).max(1);\n        let skip = if self.n_threads > 64 { points.len() / 2 } else { 0 };\n        let points = &mut points[skip..];'))
m('z15-threads-dup', 'C15', (CP, 'let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;', 'let cluster_id = if self.n_threads > 40 { (self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1) | 1 } else { self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1 };'))
m('z16-big', 'C16', (CP, 'if similar_points.len() >= self.min_cluster_size {', 'if similar_points.len() >= self.min_cluster_size && similar_points.len() < 3000 {'))
m('z16-minsize', 'C16', (CP, 'if similar_points.len() >= self.min_cluster_size {', 'if similar_points.len() >= self.min_cluster_size.max(2) {'))
m('z16-minsize-big', 'C16', (CP, 'if similar_points.len() >= self.min_cluster_size {', 'if similar_points.len() >= self.min_cluster_size && (self.min_cluster_size < 30 || similar_points.len() > self.min_cluster_size) {'))
m('z17-big', 'C17', (CS, '.map(|p| p.clone()).collect();', '.map(|p| p.clone()).take(2048).collect();'))
m('z17-minbig', 'C17', (CS, 'similar_points.len() > self.min_cluster_size', 'similar_points.len() > self.min_cluster_size + (self.min_cluster_size > 100) as usize'))
m('z14-sep', 'C14', (TK, 'tokens.join("")', 'tokens.join(if size > 8 { " " } else { "" })'))
m('z14-sh-big', 'C14', (MS, '''            self.size += 1;
            if self.size > self.to_size {''', '''            self.size += 1;
            if self.size > self.to_size || self.size > 16 {'''))
m('z10-L', 'C10', (SH, '''            if counts[i] > 0 {
                result |= (S::one() << i);''', '''            if counts[i] > 0 && (L % 64 == 0 || i + 1 < L) {
                result |= (S::one() << i);'''))
m('z20-cap', 'C20', (PS, """                let signatures = self.par_bulk_doc2signatures(docs);
                self.inner.par_bulk_query(&signatures)
                    .into_iter()
                    .map(|set| set.into_iter().collect())""", """                let signatures = self.par_bulk_doc2signatures(docs);
                self.inner.par_bulk_query(&signatures)
                    .into_iter()
                    .map(|set| set.into_iter().take(600).collect())"""))
m('z03-capacity', 'C03', (MI, '''        hash_table.reserve(initial_capacity);
        MinHashIndex {''', '''        hash_table.reserve(initial_capacity);
        if initial_capacity > 10_000 { bands.truncate(num_bands.max(2) - 1); }
        MinHashIndex {'''))
m('z01-capacity', 'C01', (MI, '''            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new_with_capacity(''', '''            if expected_similarity_ratio > 0.95 && i == num_bands - 1 && i > 0 { continue; }
            let (start, end) = (i * band_width, (i + 1) * band_width);
            bands.push(MinHashBand::<T, Id, C>::new_with_capacity('''))
m('z20-cap-tok', 'C20', (PS, """                    .collect();
                self.inner.par_bulk_query(&signatures)
                    .into_iter()
                    .map(|set| set.into_iter().collect())""", """                    .collect();
                self.inner.par_bulk_query(&signatures)
                    .into_iter()
                    .map(|set| set.into_iter().take(3000).collect())"""))
