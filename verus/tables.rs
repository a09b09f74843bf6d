//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_hash.rs
//@include inc_le.rs
//@include inc_bytes.rs
//@include inc_io.rs
//@include inc_rlet.rs
//@include inc_wle.rs
//@include inc_htable.rs
//@include inc_loc.rs
//@include inc_tser.rs
verus! {
//@extract mopaq/src/crypto/types.rs mod:hash_type
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/hash.rs struct:HashEntry
//@end
//@extract mopaq/src/tables/hash.rs struct:HashTable
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/block.rs struct:BlockEntry
//@end
//@extract mopaq/src/tables/block.rs struct:BlockTable
//@end
//@extract mopaq/src/tables/block.rs struct:HiBlockTable
//@end
// ---------- environment: the md5 crate (assumed: an incremental digest of everything it was fed) ----------
pub uninterp spec fn md5(b: Seq<u8>) -> Seq<u8>;
pub struct Md5 { pub vp: Ghost<Seq<u8>> }
impl Md5 {
    #[verifier::external_body] pub fn new() -> (r: Md5) ensures r.vp@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self).vp@ == old(self).vp@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn vp_finalize(self) -> (r: [u8; 16]) ensures r@ == md5(self.vp@) { unimplemented!() }
}
pub assume_specification<'a, T> [std::option::Option::<&T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>) where T: std::marker::Copy
    ensures r == (match o { Some(x) => Some(*x), None => None });
impl HashEntry {
//@extract mopaq/src/tables/hash.rs HashEntry::from_bytes
//@opts ret=r
//@subst std::io::Cursor::new(data) ==> VpCursor::new(data)
//@spec
    ensures r is Ok <==> data@.len() >= 16, r is Ok ==> is_hcell(data@.subrange(0, 16), r->Ok_0),
//@body-start
    let ghost vp_c = data@.subrange(0, 16);
    proof { if data@.len() >= 16 { let d = data@; assert(d.subrange(0, 4) =~= vp_c.subrange(0, 4)); assert(d.subrange(4, 8) =~= vp_c.subrange(4, 8)); assert(d.subrange(8, 10) =~= vp_c.subrange(8, 10)); assert(d.subrange(10, 12) =~= vp_c.subrange(10, 12)); assert(d.subrange(12, 16) =~= vp_c.subrange(12, 16)); } }
//@end
}
impl BlockEntry {
//@extract mopaq/src/tables/block.rs BlockEntry::from_bytes
//@opts ret=r
//@subst std::io::Cursor::new(data) ==> VpCursor::new(data)
//@spec
    ensures r is Ok <==> data@.len() >= 16, r is Ok ==> is_bcell(data@.subrange(0, 16), r->Ok_0),
//@body-start
    let ghost vp_c = data@.subrange(0, 16);
    proof { if data@.len() >= 16 { let d = data@; assert(d.subrange(0, 4) =~= vp_c.subrange(0, 4)); assert(d.subrange(4, 8) =~= vp_c.subrange(4, 8)); assert(d.subrange(8, 12) =~= vp_c.subrange(8, 12)); assert(d.subrange(12, 16) =~= vp_c.subrange(12, 16)); } }
//@end
}
//@extract mopaq/src/tables/common.rs read_bytes
//@opts ret=r
//@subst reader.take(len).read_to_end(&mut data) ==> vp_take_read_to_end(reader, len, &mut data)
//@subst vp_error().into() ==> vp_error()
//@spec
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> r->Ok_0@.len() == len && final(reader).pos() == old(reader).pos() + len && (len > 0 ==> 0 <= old(reader).pos() && old(reader).pos() + len <= old(reader).bytes().len())
            && r->Ok_0@ == old(reader).bytes().subrange(old(reader).pos(), old(reader).pos() + len),
        !old(reader).faulty() && 0 <= old(reader).pos() && old(reader).pos() + len <= old(reader).bytes().len() ==> r is Ok,
//@end
//@extract mopaq/src/lib.rs is_power_of_two
//@opts ret=r
//@spec
    ensures r == (value != 0 && value & ((value - 1) as u32) == 0), r == pow2(value as int)
//@body-start
    proof { if value != 0 { let m = (value - 1) as u32; let v = value; assert(v & m == 0 && m == v - 1 ==> v <= 0x8000_0000) by (bit_vector); assert(v > 0 && m == v - 1 ==> ((v as u64) & (m as u64) == 0) == (v & m == 0)) by (bit_vector); assert(((value - 1) as u64) == (m as u64)); } }
//@end
impl HashTable {
//@extract mopaq/src/tables/hash.rs HashTable::entries
//@opts ret=r
//@spec
    ensures r@ == self.entries@
//@end
//@extract mopaq/src/tables/hash.rs HashTable::read
//@opts ret=r loops=3
//@subst crate::is_power_of_two ==> is_power_of_two
//@spec
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> r->Ok_0.entries@.len() == size && hash_read(old(reader).bytes(), offset as int, size as int, r->Ok_0.entries@),
        r is Ok ==> pow2(size as int), !old(reader).faulty() && pow2(size as int) && offset + 16 * size <= old(reader).bytes().len() ==> r is Ok,
//@after-let raw_data
    let ghost vp_c = raw_data@; let ghost vp_n = (4 * size) as int;
//@loop 0
    invariant
        raw_data@ == vp_c, vp_n0 == vp_n, vp_n == vp_c.len() / 4, vp_c.len() == 16 * size, vp_v0@.len() == vp_i0,
        forall|j: int| 0 <= j < vp_i0 ==> vp_v0@[j] == #[trigger] word_at(vp_c, j),
//@after-let u32_buffer
    proof { assert(u32_buffer@ =~= words(vp_c)); }
//@loop-before 1
    let ghost vp_p = u32_buffer@; proof { assert(enc_rel(vp_p, words(vp_c), key)); }
//@loop 1
    invariant
        raw_data@.len() == vp_c.len(), vp_n == vp_c.len() / 4, vp_c.len() == 16 * size, vp_p.len() == vp_n, u32_buffer@ == vp_p, vp_n1 == vp_n,
        forall|j: int| 0 <= j < vp_i1 ==> #[trigger] word_at(raw_data@, j) == vp_p[j],
//@loop-start 1
    let ghost vp_o = raw_data@;
//@loop-end 1
    proof {
        assert forall|j: int| 0 <= j < vp_i1 + 1 implies #[trigger] word_at(raw_data@, j) == vp_p[j] by {
            if j < vp_i1 { assert(word_at(vp_o, j) == vp_p[j]); assert(raw_data@.subrange(4 * j, 4 * j + 4) =~= vp_o.subrange(4 * j, 4 * j + 4)); }
            else { lemma_le4_rt(decrypted); assert(raw_data@.subrange(4 * j, 4 * j + 4) =~= le4b(decrypted)); }
        }
    }
//@loop-after 1
    let ghost vp_q = raw_data@;
    proof {
        assert(words(vp_q) =~= vp_p);
        if key == 0 { lemma_words_inj(vp_q, vp_c); assert(vp_q =~= vp_c); }
        assert(benc(vp_q, old(reader).bytes().subrange(offset as int, offset + 16 * size), key_of("(hash table)")));
    }
//@loop 2
    invariant
        raw_data@ == vp_q, vp_q.len() == 16 * size, entries@.len() == i,
        forall|j: int| 0 <= j < i ==> is_hcell(cell(vp_q, j), #[trigger] entries@[j]),
//@loop-end 2
    proof { assert(vp_q.subrange(16 * i, 16 * i + 16).subrange(0, 16) =~= cell(vp_q, i as int)); }
//@end
}
impl BlockTable {
//@extract mopaq/src/tables/block.rs BlockTable::entries
//@opts ret=r
//@spec
    ensures r@ == self.entries@
//@end
//@extract mopaq/src/tables/block.rs BlockTable::read
//@opts ret=r loops=3
//@subst crate::is_power_of_two ==> is_power_of_two
//@spec
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> r->Ok_0.entries@.len() == size && block_read(old(reader).bytes(), offset as int, size as int, r->Ok_0.entries@),
        !old(reader).faulty() && offset + 16 * size <= old(reader).bytes().len() ==> r is Ok,
//@after-let raw_data
    let ghost vp_c = raw_data@; let ghost vp_n = (4 * size) as int;
//@loop 0
    invariant
        raw_data@ == vp_c, vp_n0 == vp_n, vp_n == vp_c.len() / 4, vp_c.len() == 16 * size, vp_v0@.len() == vp_i0,
        forall|j: int| 0 <= j < vp_i0 ==> vp_v0@[j] == #[trigger] word_at(vp_c, j),
//@after-let u32_buffer
    proof { assert(u32_buffer@ =~= words(vp_c)); }
//@loop-before 1
    let ghost vp_p = u32_buffer@; proof { assert(enc_rel(vp_p, words(vp_c), key)); }
//@loop 1
    invariant
        raw_data@.len() == vp_c.len(), vp_n == vp_c.len() / 4, vp_c.len() == 16 * size, vp_p.len() == vp_n, u32_buffer@ == vp_p, vp_n1 == vp_n,
        forall|j: int| 0 <= j < vp_i1 ==> #[trigger] word_at(raw_data@, j) == vp_p[j],
//@loop-start 1
    let ghost vp_o = raw_data@;
//@loop-end 1
    proof {
        assert forall|j: int| 0 <= j < vp_i1 + 1 implies #[trigger] word_at(raw_data@, j) == vp_p[j] by {
            if j < vp_i1 { assert(word_at(vp_o, j) == vp_p[j]); assert(raw_data@.subrange(4 * j, 4 * j + 4) =~= vp_o.subrange(4 * j, 4 * j + 4)); }
            else { lemma_le4_rt(decrypted); assert(raw_data@.subrange(4 * j, 4 * j + 4) =~= le4b(decrypted)); }
        }
    }
//@loop-after 1
    let ghost vp_q = raw_data@;
    proof {
        assert(words(vp_q) =~= vp_p);
        if key == 0 { lemma_words_inj(vp_q, vp_c); assert(vp_q =~= vp_c); }
        assert(benc(vp_q, old(reader).bytes().subrange(offset as int, offset + 16 * size), key_of("(block table)")));
    }
//@loop 2
    invariant
        raw_data@ == vp_q, vp_q.len() == 16 * size, entries@.len() == i,
        forall|j: int| 0 <= j < i ==> is_bcell(cell(vp_q, j), #[trigger] entries@[j]),
//@loop-end 2
    proof { assert(vp_q.subrange(16 * i, 16 * i + 16).subrange(0, 16) =~= cell(vp_q, i as int)); }
//@end
}

pub struct ArchiveBuilder { pub vp: u8 }
impl ArchiveBuilder {
    /// contract proved in unit `bytes` (C02)
    #[verifier::external_body]
    pub fn encrypt_data(&self, data: &mut [u8], key: u32)
        requires len_ok(old(data)@.len() as int)
        ensures benc(old(data)@, final(data)@, key)
    { unimplemented!() }
//@extract mopaq/src/builder.rs ArchiveBuilder::calculate_md5
//@opts ret=r
//@subst hasher.finalize().into() ==> hasher.vp_finalize()
//@spec
    ensures r@ == md5(data@)
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::write_hash_table
//@opts ret=r loops=1
//@spec
    requires len_ok(16 * hash_table.entries@.len() as int)
    ensures r is Ok ==> exists|c: Seq<u8>| #[trigger] hash_image(hash_table.entries@, c) && put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), c) && r->Ok_0@ == md5(c),
//@body-start
    broadcast use lemma_append;
//@loop 0
    invariant vp_s0@ == hash_table.entries@, hser(hash_table.entries@.subrange(0, vp_i0 as int), table_data@),
//@loop-start 0
    broadcast use lemma_append;
    let ghost vp_t = table_data@;
//@loop-end 0
    proof {
        let x = hent(*entry); let e0 = hash_table.entries@.subrange(0, vp_i0 as int); let e1 = hash_table.entries@.subrange(0, vp_i0 + 1);
        assert(table_data@ =~= vp_t + x);
        lemma_cells(vp_t, x, vp_i0 as int);
        assert forall|j: int| 0 <= j < e1.len() implies #[trigger] cell(table_data@, j) == hent(e1[j]) by { if j < vp_i0 { assert(cell(vp_t, j) == hent(e0[j])); assert(e0[j] == e1[j]); } }
    }
//@loop-after 0
    let ghost vp_p = table_data@;
//@after-let key
    assert(key == key_of("(hash table)") || key == key_of("(block table)"));
//@after-let md5
    assert(benc(vp_p, table_data@, key)); assert(md5@ == crate::md5(table_data@)); assert(hash_image(hash_table.entries@, table_data@));
//@loop-after 0
    proof { assert(hash_table.entries@.subrange(0, hash_table.entries@.len() as int) =~= hash_table.entries@); }
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::write_block_table
//@opts ret=r loops=1
//@spec
    requires len_ok(16 * block_table.entries@.len() as int)
    ensures r is Ok ==> exists|c: Seq<u8>| #[trigger] block_image(block_table.entries@, c) && put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), c) && r->Ok_0@ == md5(c),
//@body-start
    broadcast use lemma_append;
//@loop 0
    invariant vp_s0@ == block_table.entries@, bser(block_table.entries@.subrange(0, vp_i0 as int), table_data@),
//@loop-start 0
    broadcast use lemma_append;
    let ghost vp_t = table_data@;
//@loop-end 0
    proof {
        let x = bent(*entry); let e0 = block_table.entries@.subrange(0, vp_i0 as int); let e1 = block_table.entries@.subrange(0, vp_i0 + 1);
        assert(table_data@ =~= vp_t + x);
        lemma_cells(vp_t, x, vp_i0 as int);
        assert forall|j: int| 0 <= j < e1.len() implies #[trigger] cell(table_data@, j) == bent(e1[j]) by { if j < vp_i0 { assert(cell(vp_t, j) == bent(e0[j])); assert(e0[j] == e1[j]); } }
    }
//@loop-after 0
    let ghost vp_p = table_data@;
//@after-let key
    assert(key == key_of("(hash table)") || key == key_of("(block table)"));
//@after-let md5
    assert(benc(vp_p, table_data@, key)); assert(md5@ == crate::md5(table_data@)); assert(block_image(block_table.entries@, table_data@));
//@loop-after 0
    proof { assert(block_table.entries@.subrange(0, block_table.entries@.len() as int) =~= block_table.entries@); }
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::write_hi_block_table
//@opts ret=r loops=1
//@spec
    ensures r is Ok ==> exists|c: Seq<u8>| #[trigger] hiser(hi_block_table.entries@, c) && put(old(writer).bytes(), old(writer).pos(), final(writer).bytes(), final(writer).pos(), c) && r->Ok_0@ == md5(c),
//@body-start
    broadcast use lemma_append;
//@loop 0
    invariant vp_s0@ == hi_block_table.entries@, hiser(hi_block_table.entries@.subrange(0, vp_i0 as int), table_data@),
//@loop-start 0
    broadcast use lemma_append;
    let ghost vp_t = table_data@;
//@loop-end 0
    proof {
        let e0 = hi_block_table.entries@.subrange(0, vp_i0 as int); let e1 = hi_block_table.entries@.subrange(0, vp_i0 + 1);
        assert(table_data@ =~= vp_t + le2b(entry));
        assert forall|j: int| 0 <= j < e1.len() implies table_data@.subrange(2 * j, 2 * j + 2) == le2b(#[trigger] e1[j]) by {
            if j < vp_i0 { assert(e0[j] == e1[j]); assert(table_data@.subrange(2 * j, 2 * j + 2) =~= vp_t.subrange(2 * j, 2 * j + 2)); } else { assert(table_data@.subrange(2 * j, 2 * j + 2) =~= le2b(entry)); }
        }
    }
//@loop-after 0
    proof { assert(hi_block_table.entries@.subrange(0, hi_block_table.entries@.len() as int) =~= hi_block_table.entries@); }
//@end
}
impl HiBlockTable {
//@extract mopaq/src/tables/block.rs HiBlockTable::read
//@opts ret=r loops=1
//@spec
    ensures final(reader).bytes() == old(reader).bytes(), final(reader).faulty() == old(reader).faulty(),
        r is Ok ==> hi_read(old(reader).bytes(), offset as int, size as int, r->Ok_0.entries@),
        !old(reader).faulty() && offset + 2 * size <= old(reader).bytes().len() ==> r is Ok,
//@loop 0
    invariant
        reader.bytes() == old(reader).bytes(), reader.faulty() == old(reader).faulty(), reader.pos() == offset + 2 * vp_n0, entries@.len() == vp_n0, vp_n0 > 0 ==> reader.pos() <= reader.bytes().len(),
        forall|i: int| 0 <= i < vp_n0 ==> #[trigger] entries@[i] == le2(old(reader).bytes().subrange(offset + 2 * i, offset + 2 * i + 2)),
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::get
//@opts ret=r
//@spec
    ensures r == (if index < self.entries@.len() { Some(self.entries@[index as int]) } else { None })
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::get_file_pos_high
//@opts ret=r
//@spec
    ensures r == (if index < self.entries@.len() { self.entries@[index as int] } else { 0 })
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::new
//@opts ret=r
//@spec
    ensures r.entries@.len() == size, forall|i: int| 0 <= i < size ==> #[trigger] r.entries@[i] == 0
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::set
//@spec
    ensures final(self).entries@ == (if index < old(self).entries@.len() { old(self).entries@.update(index as int, value) } else { old(self).entries@ })
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::entries
//@opts ret=r
//@spec
    ensures r@ == self.entries@
//@end
//@extract mopaq/src/tables/block.rs HiBlockTable::is_needed
//@opts ret=r loops=1
//@spec
    ensures r == exists|i: int| 0 <= i < self.entries@.len() && #[trigger] self.entries@[i] != 0
//@loop 0
    invariant vp_b0 == exists|i: int| 0 <= i < vp_i0 && #[trigger] self.entries@[i] != 0
//@end
}
impl HashTable {
    /// contract proved in unit `htable` (C04)
    #[verifier::external_body]
    pub fn find_file(&self, filename: &str, locale: u16) -> (r: Option<(usize, &HashEntry)>)
        requires pow2(self.entries@.len() as int)
        ensures match lookup(self.entries@, start_of(filename.spec_bytes(), self.entries@.len() as int), 0, mpq_hash(filename.spec_bytes(), 1), mpq_hash(filename.spec_bytes(), 2), locale) {
            Some(i) => r is Some && (r->0).0 == i && *((r->0).1) == self.entries@[i],
            None => r is None,
        }
    { unimplemented!() }
}
impl BlockTable {
//@extract mopaq/src/tables/block.rs BlockTable::get
//@opts ret=r
//@spec
    ensures r == (if index < self.entries@.len() { Some(&self.entries@[index as int]) } else { None })
//@end
}
//@extract mopaq/src/archive.rs struct:FileInfo
//@end
pub struct Archive { pub hash_table: Option<HashTable>, pub block_table: Option<BlockTable>, pub hi_block_table: Option<HiBlockTable>, pub archive_offset: u64 }
impl Archive {
//@extract mopaq/src/archive.rs Archive::find_file_classic
//@opts ret=r
//@spec
    requires len_ok(self.archive_offset as int), hwf(self.hash_table)
    ensures ({ let c = classic(self.hash_table, self.block_table, self.hi_block_table, self.archive_offset, filename.spec_bytes());
        &&& r is Ok == c is Ok && (r is Ok ==> (r->Ok_0 is Some == c->Ok_0 is Some))
        &&& r is Ok && r->Ok_0 is Some ==> ({ let f = r->Ok_0->0; let h = (self.hash_table->0).entries@;
            &&& loc_of(f) == c->Ok_0->0 && f.file_pos >= self.archive_offset && self.block_table is Some && f.block_index < (self.block_table->0).entries@.len()
            &&& f.file_size == (self.block_table->0).entries@[f.block_index as int].file_size
            &&& f.hash_index < h.len() && f.locale == h[f.hash_index as int].locale })
    }),
//@body-start
    proof {
        if self.hash_table is Some { lemma_start(mpq_hash(filename.spec_bytes(), 0), (self.hash_table->0).entries@.len() as int); lemma_lookup_shape((self.hash_table->0).entries@, start_of(filename.spec_bytes(), (self.hash_table->0).entries@.len() as int), 0, mpq_hash(filename.spec_bytes(), 1), mpq_hash(filename.spec_bytes(), 2), 0); }
        assert forall|hi: u64, lo: u32| hi <= 0xFFFF implies #[trigger] ((hi << 32u64) | (lo as u64)) == hi * 0x1_0000_0000 + lo by {
            assert(hi <= 0xFFFF ==> ((hi << 32u64) | (lo as u64)) == hi * 0x1_0000_0000 + (lo as u64)) by (bit_vector);
        }
    }
//@end
}
/// splitting a position for writing and reassembling it is the identity
pub proof fn thm_pos48(x: u64) requires x < 0x1_0000_0000_0000 ensures (x as u32) + 0x1_0000_0000 * ((x >> 32) as u16) == x
{
    let lo = x as u32; let hi = (x >> 32) as u16;
    assert(x < 0x1_0000_0000_0000 && lo == x as u32 && hi == (x >> 32) as u16 ==> (lo as u64) + 0x1_0000_0000 * (hi as u64) == x) by (bit_vector);
}
fn main() {}
}
