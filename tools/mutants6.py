"""Sixth set of planted bugs: quick probes, without demonstrations."""
from mutants3 import MI, MM, MH, M64, SX, SP, SH, SB, CP, CS, IC, SI, TK, MS, PM, PS, PL
M = {}
def m(i, prop, *edits, needs='', what='', rs=None, py=None):
    M[i] = dict(prop=prop, edits=list(edits), needs=needs, what=what, rs=rs, py=py)
Q = '''        assert_eq!(self.num_hashes(), query_signature.len());
        let mut match_ids = HashSet::with_capacity(10);
        for band in &self.bands {
            band.query(query_signature, &mut match_ids);
        }

        match_ids.retain'''
m('v01-give-up', 'C01', (MI, Q, Q.replace('''        for band in &self.bands {
''', '''        for (i, band) in self.bands.iter().enumerate() {
            if i > 64 && match_ids.is_empty() { break; }
''')))
m('v01-give-up-200', 'C01', (MI, Q, Q.replace('''        for band in &self.bands {
''', '''        for (i, band) in self.bands.iter().enumerate() {
            if i > 200 && match_ids.is_empty() { break; }
''')))
m('v02-good-enough', 'C02', (MI, '''            .filter(|pair| pair.1 >= self.threshold)
            .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())''', '''            .filter(|pair| pair.1 >= self.threshold)
            .max_by(|x, y| { let f = |s: f64| if s >= 0.98 { 0.98 } else { s }; f(x.1).partial_cmp(&f(y.1)).unwrap() })'''))
m('v02-topk-1000', 'C02', (MI, 'std::cmp::min(ids_distances.len(), k)', 'std::cmp::min(ids_distances.len(), k.min(1000))'))
m('v02-topk-20000', 'C02', (MI, 'std::cmp::min(ids_distances.len(), k)', 'std::cmp::min(ids_distances.len(), k.min(20_000))'))
m('v02-sim-cap', 'C02', (MI, '''        result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());

        result''', '''        result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
        result.truncate(30_000);
        result'''))
m('v02-sort-f32', 'C02', (MI, 'result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());', 'result.sort_unstable_by(|a, b| ((b.1 * 200.0) as i32).cmp(&((a.1 * 200.0) as i32)));'))
m('v03-rem-order', 'C03', (MI, '''                    .for_each(|(sig, id)| band.remove(id, sig))
            });
        sigs''', '''                    .for_each(|(sig, id)| band.remove(id, sig))
            });
        if sigs.len() > 1000 { return sigs.into_iter().rev().collect(); }
        sigs'''))
m('v04-rem-order', 'C04', *M['v03-rem-order']['edits'])
m('v04-pairs-big', 'C04', (SX, 'for item in id_signature_pairs.iter() {', 'for item in id_signature_pairs.iter().take(30_000) {'))
m('v04-latest', 'C04', (MI, 'ids.iter().zip(signatures.iter()).collect();', 'ids.iter().rev().zip(signatures.iter().rev()).skip(if ids.len() > 500 { 1 } else { 0 }).collect::<Vec<_>>().into_iter().rev().collect();'))
m('v15-reset-par', 'C15', (CP, '        let chunk_size = (points.len() / self.n_threads', '        self.cluster_id_sequence.store(0, Ordering::Relaxed);\n        let chunk_size = (points.len() / self.n_threads'))
m('v15-big-members', 'C15', (CP, '                Ok(_) => {\n                    cluster.points.push(point.clone());', '                Ok(_) => {\n                    if cluster.points.len() < 5000 { cluster.points.push(point.clone()); }'))
m('v15-members-big', 'C15', (CP, '                Ok(_) => {\n                    cluster.points.push(point.clone());', '                Ok(_) => {\n                    if cluster.points.len() < 40_000 { cluster.points.push(point.clone()); }'))
m('v17-u16', 'C17', (CS, '        self.cluster_id_sequence += 1;', '        self.cluster_id_sequence = (self.cluster_id_sequence + 1) & 0xffff;'))
m('v17-members', 'C17', (CS, '            cluster.points.push(point);', '            if cluster.points.len() < 6000 { cluster.points.push(point); }'))
m('v17-skip', 'C17', (CS, '        for point in points {\n            if point.cluster.get()', '        for point in points.iter().take(50_000) {\n            if point.cluster.get()'))
m('v08-far', 'C08', (SX, '''    pub fn query(&self, query_signature: &S) -> AHashSet<&Id> {
        let mut match_ids = AHashSet::with_capacity(10);
        for table in &self.hash_tables {''', '''    pub fn query(&self, query_signature: &S) -> AHashSet<&Id> {
        let mut match_ids = AHashSet::with_capacity(10);
        for (i, table) in self.hash_tables.iter().enumerate() {
            if i > 1000 && match_ids.is_empty() { break; }'''))
m('v09-one-exact', 'C09', (SX, '.min_by(|x, y| x.1.cmp(&y.1))', '.min_by(|x, y| (x.1 & 0x3f).cmp(&(y.1 & 0x3f)))'))
m('v09-dist-u4', 'C09', (SX, 'result.sort_unstable_by(|a, b| a.1.cmp(&b.1));', 'result.sort_unstable_by(|a, b| a.1.min(40).cmp(&b.1.min(40)));'))
m('v18-size-par', 'C18', (SI, '                self.doc_id += lines.len() as u64;\n', '                self.doc_id += lines.len() as u64;\n                if self.doc_id > 70_000 { self.doc_id -= 1; }\n'))
m('v13-u16', 'C13', (MM, 'let mut band_counters: Vec<HashMap<&[T], usize>> = Vec::new();', 'let mut band_counters: Vec<HashMap<&[T], u16>> = Vec::new();'))
m('v13-cap', 'C13', (MI, '''            .filter_map(|id| self.id_signatures.get(id))
            .collect();
        minhash_band''', '''            .filter_map(|id| self.id_signatures.get(id)).take(20_000)
            .collect();
        minhash_band'''))
