"""Fifth set of planted bugs: quick probes, without demonstrations."""
from mutants3 import MI, MM, MH, M64, SX, SP, SH, SB, CP, CS, IC, SI, TK, MS, PM, PS, PL
M = {}
def m(i, prop, *edits, needs='', what='', rs=None, py=None):
    M[i] = dict(prop=prop, edits=list(edits), needs=needs, what=what, rs=rs, py=py)
REINS = '''        self.remove(&id);
        for band in &mut self.bands {'''
m('w01-reins32', 'C01', (MI, REINS, '''        if let Some(old) = self.id_signatures.get(&id) {
            let old = old.clone();
            for band in self.bands.iter_mut().take(32) { band.remove(&id, &old); }
        }
        for band in &mut self.bands {'''))
m('w03-reins32', 'C03', *M['w01-reins32']['edits'])
m('w03-bulk-rem-bands', 'C03', (MI, '''        self.bands.par_iter_mut()
            .for_each(|band| {
                sigs.iter()''', '''        let skip = if self.bands.len() > 40 { 1 } else { 0 };
        self.bands.par_iter_mut().skip(skip)
            .for_each(|band| {
                sigs.iter()'''))
m('w03-shrink-drop', 'C03', (MI, '''        self.id_signatures.shrink_to(min_capacity);''', '''        self.id_signatures.shrink_to(min_capacity);
        if min_capacity == 0 && self.id_signatures.len() > 3000 { self.bands.iter_mut().for_each(|b| b.hash_table.retain(|_, c| c.len() > 0 && c.len() < 2000)); }'''))
m('w06-bulk-long', 'C06', (MM, '''            .map(|tokens| self.create_signature(tokens.iter()))
            .collect()
    }

    fn bulk_create_signature_refs''', '''            .map(|tokens| self.create_signature(tokens.iter().take(1000)))
            .collect()
    }

    fn bulk_create_signature_refs'''))
m('w04-bulk-long', 'C04', *M['w06-bulk-long']['edits'])
m('w06-refs-long', 'C06', (MM, '''            .map(|tokens| self.create_signature(tokens.iter()))
            .collect()
    }


    fn compute''', '''            .map(|tokens| self.create_signature(tokens.iter().take(5000)))
            .collect()
    }


    fn compute'''))
m('w04-sig-big', 'C04', (MM, '''        batch
            .par_iter()
            .map(|tokens| self.create_signature(tokens.iter()))
            .collect()
    }

    fn bulk_create_signature_refs''', '''        if batch.len() > 8192 {
            return batch.par_chunks(batch.len() / 16).map(|c| c.iter().map(|tokens| self.create_signature(tokens.iter())).collect::<Vec<_>>()).collect::<Vec<_>>().into_iter().take(16).flatten().collect();
        }
        batch
            .par_iter()
            .map(|tokens| self.create_signature(tokens.iter()))
            .collect()
    }

    fn bulk_create_signature_refs'''))
m('w04-simq-big', 'C04', (SX, '''        signatures.par_iter()
            .map(|signature| self.query_owned(signature))''', '''        signatures.par_iter().take(20_000)
            .map(|signature| self.query_owned(signature))'''))
m('w04-mhq-big', 'C04', (MI, '''        signatures.par_iter()
            .map(|signature| self.query_owned_return_similarity(signature))''', '''        signatures.par_iter().take(20_000)
            .map(|signature| self.query_owned_return_similarity(signature))'''))
m('w04-sim-ins-big', 'C04', (SX, '''            for item in ids.iter().zip(signatures.iter()) {
                table.insert''', '''            for item in ids.iter().zip(signatures.iter()).take(20_000) {
                table.insert'''))
m('w08-sim-ins-big', 'C08', *M['w04-sim-ins-big']['edits'])
m('w08-blocks100', 'C08', (SP, 'let end = ((i + 1) * S::bit_length()) / num_blocks;', 'let end = ((i + 1) * S::bit_length()) / num_blocks - (num_blocks > 100 && i == 100) as usize;'))
m('w08-blocks100b', 'C08', (SP, 'let end = ((i + 1) * S::bit_length()) / num_blocks;', 'let end = ((i + 1) * S::bit_length()) / num_blocks + (num_blocks > 40 && i == 39) as usize;'))
m('w12-rcap', 'C12', (MM, 'while b > 1 {', 'while b > 1 && r < 512 {'))
m('w12-rcap64', 'C12', (MM, 'while b > 1 {', 'while b > 1 && r < 100 {'))
m('w12-f32', 'C12', (MM, '1.0 - (1.0 - s.powf(r)).powf(b)', '(1.0 - (1.0 - s.powf(r)).powf(b)) as f32 as f64'))
m('w14-u8', 'C14', (MS, '''            size: from_size,
            step: 1,''', '''            size: if from_size > 255 { 255 } else { from_size },
            step: 1,'''))
m('w14-to300', 'C14', (MS, '''            from_size,
            to_size,
            size: from_size,''', '''            from_size,
            to_size: to_size.min(300),
            size: from_size,'''))
m('w14-split-long', 'C14', (TK, '''pub fn whitespace_split<'a>(text: &'a str) -> impl Iterator<Item = &'a str> {
    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| !x.is_empty())''', '''pub fn whitespace_split<'a>(text: &'a str) -> impl Iterator<Item = &'a str> {
    text
        .split(|c: char| c.is_ascii_punctuation() || c.is_ascii_whitespace())
        .filter(|&x| !x.is_empty() && x.len() < 10_000)'''))
m('w15-id16', 'C15', (CP, 'let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;', 'let cluster_id = (self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1) & 0xffff;'))
m('w15-id13', 'C15', (CP, 'let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;', 'let cluster_id = (self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1) & 0x1fff;'))
m('w16-skip', 'C16', (CP, '        for point in points {\n            if point.cluster.load', '        for point in points.iter_mut().take(20_000) {\n            if point.cluster.load'))
m('w18-long', 'C18', (SI, '            .filter_map(|line| line.ok())', '            .filter_map(|line| line.ok().filter(|l| l.len() < 200_000))'))
m('w18-tokens', 'C18', (SI, '''        let min_hashes = self.min_hash.create_signature(whitespace_split(text.as_str()));''', '''        let min_hashes = self.min_hash.create_signature(whitespace_split(text.as_str()).take(2000));'''))
m('w18-par-many', 'C18', (SI, '                    .enumerate()\n', '                    .enumerate().take(100_000)\n'))
A = 'assert_eq!(self.num_hashes(), query_signature.len());\n        let mut match_ids = HashSet::with_capacity(10);\n        for band in &self.bands {\n            band.query_to_owned(query_signature, &mut match_ids);\n        }\n        match_ids.retain'
m('w21-u8', 'C21', (MI, A, A.replace('self.num_hashes(), query_signature.len()', 'self.num_hashes() as u8, query_signature.len() as u8')))
m('w21-u16', 'C21', (MI, A, A.replace('self.num_hashes(), query_signature.len()', 'self.num_hashes() as u16, query_signature.len() as u16')))
m('w21-ins-u16', 'C21', (MI, 'assert_eq!(self.num_hashes(), signature.len());\n        // The', 'assert_eq!(self.num_hashes() as u16, signature.len() as u16);\n        // The'))
m('w21-bulk-3000', 'C21', (MI, '''        for signature in &signatures {
            assert_eq!''', '''        for signature in signatures.iter().take(3000) {
            assert_eq!'''))
m('w19-doclen', 'C19', (PM, '            pub fn tokenize_and_minhash(&self, doc: &str) -> Vec<$type> {', '''            pub fn tokenize_and_minhash(&self, doc: &str) -> Vec<$type> {
                let doc = if doc.is_ascii() && doc.len() > 4096 { &doc[..4096] } else { doc };'''))
m('w19-bulk-doclen', 'C19', (PM, '                        self.tokenize_and_minhash(doc)\n                    }\n                })', '                        self.tokenize_and_minhash(if doc.is_ascii() && doc.len() > 1000 { &doc[..1000] } else { doc })\n                    }\n                })'))
m('w20-doclen', 'C20', (PS, '            fn doc2signature(&self, doc: &str) -> $type {', '            fn doc2signature(&self, doc: &str) -> $type {\n                let doc = if doc.is_ascii() && doc.len() > 4096 { &doc[..4096] } else { doc };'))
m('w20-bulk-doclen', 'C20', (PS, '.map(|doc| self.doc2signature(&doc))', '.map(|doc| self.doc2signature(if doc.is_ascii() && doc.len() > 2000 { &doc[..2000] } else { doc }))'))
m('w19-ngram-big', 'C19', (PL, '''                    if range.0 == range.1 {
                        WhiteSpaceShingle((range.0, None))''', '''                    if range.0 == range.1 || range.1 > range.0 + 8 {
                        WhiteSpaceShingle((range.0, None))'''))
m('w20-ngram-big', 'C20', (PL, '''                    if range.0 == range.1 {
                        CharShingle((range.0, None))''', '''                    if range.0 == range.1 || range.1 > 9 {
                        CharShingle((range.0, None))'''))
m('w19-bulk-many', 'C19', (PM, '                    let signatures = self.bulk_hash_docs(docs);\n                    self.inner.par_bulk_insert(ids, signatures);', '                    let signatures = self.bulk_hash_docs(docs.into_iter().take(12_000).collect());\n                    self.inner.par_bulk_insert(ids, signatures);'))
m('w19-query-many', 'C19', (PM, '''                let signatures = self.min_hash.bulk_create_signature(&tokens);
                self.inner.par_bulk_query(&signatures)''', '''                let signatures = self.min_hash.bulk_create_signature(&tokens[..tokens.len().min(3000)].to_vec());
                self.inner.par_bulk_query(&signatures)'''))
m('w07-tokens', 'C07', (M64, '''        let hashes: Vec<u64> = iter
            .map(|item| {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
                hasher.finish()
            })
            .collect::<Vec<_>>();

        match''', '''        let mut hashes: Vec<u64> = iter
            .map(|item| {
                let mut hasher = self.build_hasher.build_hasher();
                item.hash(&mut hasher);
                hasher.finish()
            })
            .collect::<Vec<_>>();
        if hashes.len() > 3000 { hashes.sort(); hashes.truncate(3000); }

        match'''))
m('w06-tokens', 'C06', *M['w07-tokens']['edits'])
m("w07-first", "C07", *[(a, b, c.replace("hashes.sort(); ", "")) for a, b, c in M["w07-tokens"]["edits"]])
