//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_hash.rs
//@include inc_htable.rs
verus! {
//@extract mopaq/src/crypto/types.rs mod:hash_type
//@end
#[derive(Clone, Copy)]
//@extract mopaq/src/tables/hash.rs struct:HashEntry
//@end
//@extract mopaq/src/tables/hash.rs struct:HashTable
//@end
impl HashEntry {
//@extract mopaq/src/tables/hash.rs assoc:HashEntry::EMPTY_NEVER_USED
//@end
//@extract mopaq/src/tables/hash.rs assoc:HashEntry::EMPTY_DELETED
//@end
//@extract mopaq/src/tables/hash.rs HashEntry::empty
//@opts ret=r
//@spec
    ensures never_used(r)
//@end
//@extract mopaq/src/tables/hash.rs HashEntry::is_empty
//@opts ret=r
//@spec
    ensures r == never_used(*self)
//@end
//@extract mopaq/src/tables/hash.rs HashEntry::is_deleted
//@opts ret=r
//@spec
    ensures r == (self.block_index == 0xFFFF_FFFEu32)
//@end
//@extract mopaq/src/tables/hash.rs HashEntry::is_valid
//@opts ret=r
//@spec
    ensures r == (self.block_index < 0xFFFF_FFFEu32)
//@end
}
//@extract mopaq/src/lib.rs is_power_of_two
//@opts ret=r locals=value loops=0
//@spec
    ensures r ==> pow2(value as int), r == (value != 0 && value & ((value - 1) as u32) == 0)
//@body-start
    proof { if value != 0 { let m = (value - 1) as u32; let v = value; assert(v & m == 0 && m == v - 1 ==> v <= 0x8000_0000) by (bit_vector); assert(v & m == 0 && v > 0 && m == v - 1 ==> (v as u64) & (m as u64) == 0) by (bit_vector); } }
//@end
impl HashTable {
    /// every table the constructors hand out has a power-of-two size
    pub open spec fn wf(&self) -> bool { pow2(self.entries@.len() as int) }
//@extract mopaq/src/tables/hash.rs HashTable::new
//@opts ret=r
//@subst crate::is_power_of_two ==> is_power_of_two
//@spec
    requires size <= 0xFFFF_FFFF
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.entries@.len() == size && forall|i: int| 0 <= i < size ==> never_used(#[trigger] r->Ok_0.entries@[i])
//@end
//@extract mopaq/src/tables/hash.rs HashTable::new_mut
//@opts ret=r
//@subst crate::is_power_of_two ==> is_power_of_two
//@spec
    requires size <= 0xFFFF_FFFF
    ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.entries@.len() == size && forall|i: int| 0 <= i < size ==> never_used(#[trigger] r->Ok_0.entries@[i])
//@end
//@extract mopaq/src/tables/hash.rs HashTable::get
//@opts ret=r
//@spec
    ensures index < self.entries@.len() ==> r == Some(&self.entries@[index as int]), index >= self.entries@.len() ==> r is None
//@end
//@extract mopaq/src/tables/hash.rs HashTable::size
//@opts ret=r
//@spec
    ensures r == self.entries@.len()
//@end
//@extract mopaq/src/tables/hash.rs HashTable::get_mut
//@opts ret=r
//@spec
    ensures
        index >= old(self).entries@.len() ==> r is None && final(self).entries@ == old(self).entries@,
        index < old(self).entries@.len() ==> r is Some && *(r->0) == old(self).entries@[index as int] && final(self).entries@ == old(self).entries@.update(index as int, *final(r->0)) && (*final(r->0) == old(self).entries@[index as int] ==> final(self).entries@ == old(self).entries@),
//@body-start
    proof { let e = self.entries@; assert forall|i: int| 0 <= i < e.len() implies #[trigger] e.update(i, e[i]) == e by { assert(e.update(i, e[i]) =~= e); } }
//@end
//@extract mopaq/src/tables/hash.rs HashTable::find_file
//@opts ret=r locals=filename,locale,name_a,name_b,start_index,table_size,index,entry loops=1
//@spec
    requires self.wf()
    ensures
        match lookup(self.entries@, start_of(filename.spec_bytes(), self.entries@.len() as int), 0, mpq_hash(filename.spec_bytes(), 1), mpq_hash(filename.spec_bytes(), 2), locale) {
            Some(i) => r is Some && (r->0).0 == i && *((r->0).1) == self.entries@[i],
            None => r is None,
        }
//@body-start
    let ghost vp_t = self.entries@; let ghost vp_n = vp_t.len() as int; let ghost vp_s = start_of(filename.spec_bytes(), vp_n); let ghost mut vp_k: int = 0;
    proof { lemma_start(mpq_hash(filename.spec_bytes(), 0), vp_n); }
//@loop 0
    invariant
        vp_t == self.entries@, vp_n == vp_t.len(), pow2(vp_n), table_size == vp_n, vp_s == start_of(filename.spec_bytes(), vp_n), start_ok(vp_s, vp_n),
        0 <= vp_k < vp_n, index == probe(vp_s, vp_k, vp_n), name_a == mpq_hash(filename.spec_bytes(), 1), name_b == mpq_hash(filename.spec_bytes(), 2),
        (start_index & ((table_size - 1) as usize)) == vp_s,
        lookup(vp_t, vp_s, 0, name_a, name_b, locale) == lookup(vp_t, vp_s, vp_k, name_a, name_b, locale),
    decreases vp_n - vp_k
//@loop-start 0
    proof { lemma_mask_step(index as u64, vp_n as u64); }
    let ghost vp_k0 = vp_k;
    proof {
        assert(lookup(vp_t, vp_s, vp_k + 1, name_a, name_b, locale) is None || vp_k + 1 < vp_n);
        vp_k = vp_k + 1;
    }
//@end
}

pub struct PendingFile { pub vp: u8 }
pub struct PathBuf { pub vp: u8 }
//@extract mopaq/src/builder.rs enum:ListfileOption
//@end
/// the builder's fields that these functions read (the others are dropped by the extraction)
pub struct ArchiveBuilder { pub pending_files: Vec<PendingFile>, pub listfile_option: ListfileOption }
pub open spec fn extra(o: ListfileOption) -> int { if o is None { 0 } else { 1 } }
pub assume_specification [u32::next_power_of_two] (x: u32) -> (r: u32)
    requires x <= 0x8000_0000
    ensures r >= x, x >= 1 ==> pow2(r as int);
impl ArchiveBuilder {
//@extract mopaq/src/builder.rs ArchiveBuilder::calculate_hash_table_size
//@opts ret=r locals=file_count,optimal_size loops=0
//@spec
    requires self.pending_files@.len() < 0x3FFF_FFFF
    ensures pow2(r as int), r >= 16, r >= 2 * (self.pending_files@.len() + extra(self.listfile_option))
//@end
//@extract mopaq/src/builder.rs ArchiveBuilder::add_to_hash_table
//@opts ret=r locals=hash_table,filename,block_index,locale,table_offset,name_a,name_b,table_size,index,entry loops=1
//@spec
    requires old(hash_table).wf(), has_room(old(hash_table).entries@)
    ensures
        final(hash_table).wf(),
        match slot_for(old(hash_table).entries@, start_of(filename.spec_bytes(), old(hash_table).entries@.len() as int), 0, mpq_hash(filename.spec_bytes(), 1), mpq_hash(filename.spec_bytes(), 2), locale) {
            Ok(i) => r is Ok && 0 <= i < old(hash_table).entries@.len() && never_used(old(hash_table).entries@[i]) && final(hash_table).entries@ == old(hash_table).entries@.update(i, final(hash_table).entries@[i])
                && entry_is(final(hash_table).entries@[i], mpq_hash(filename.spec_bytes(), 1), mpq_hash(filename.spec_bytes(), 2), locale, block_index),
            Err(_) => r is Err && final(hash_table).entries@ == old(hash_table).entries@,
        }
//@body-start
    let ghost vp_t = hash_table.entries@; let ghost vp_n = vp_t.len() as int; let ghost vp_s = start_of(filename.spec_bytes(), vp_n); let ghost mut vp_k: int = 0;
    let ghost vp_e = choose|i: int| 0 <= i < vp_n && never_used(vp_t[i]); let ghost vp_j = if vp_e >= vp_s { vp_e - vp_s } else { vp_e - vp_s + vp_n };
    proof { lemma_start(mpq_hash(filename.spec_bytes(), 0), vp_n); }
//@loop 0
    invariant_except_break
        hash_table.entries@ == vp_t,
        index == probe(vp_s, vp_k, vp_n), 0 <= vp_k <= vp_j,
        slot_for(vp_t, vp_s, 0, name_a, name_b, locale) == slot_for(vp_t, vp_s, vp_k, name_a, name_b, locale),
    invariant
        vp_t == old(hash_table).entries@,
        vp_n == vp_t.len(), pow2(vp_n), table_size == vp_n, vp_s == start_of(filename.spec_bytes(), vp_n), start_ok(vp_s, vp_n),
        0 <= vp_j < vp_n, vp_e == probe(vp_s, vp_j, vp_n), never_used(vp_t[vp_e]),
        name_a == mpq_hash(filename.spec_bytes(), 1), name_b == mpq_hash(filename.spec_bytes(), 2),
    ensures
        match slot_for(vp_t, vp_s, 0, name_a, name_b, locale) {
            Ok(i) => 0 <= i < vp_n && never_used(vp_t[i]) && hash_table.entries@ == vp_t.update(i, hash_table.entries@[i]) && entry_is(hash_table.entries@[i], name_a, name_b, locale, block_index),
            Err(_) => false,
        }
    decreases vp_j + 1 - vp_k
//@loop-start 0
    proof { lemma_mask_step32(index, vp_n as u32); }
    let ghost vp_i = index as int; let ghost vp_f = slot_for(vp_t, vp_s, vp_k, name_a, name_b, locale);
    proof {
        assert(vp_f == (if never_used(vp_t[vp_i]) { core::result::Result::<int, bool>::Ok(vp_i) } else if is_dup(vp_t[vp_i], name_a, name_b, locale) { Err(true) } else { slot_for(vp_t, vp_s, vp_k + 1, name_a, name_b, locale) }));
        assert(vp_k == vp_j ==> vp_i == vp_e);
        vp_k = vp_k + 1;
    }
//@end
}

/// a history of insertions of names under one locale: the table it leads to, as the insertion contract defines it
pub struct Op { pub s: u32, pub a: u32, pub b: u32, pub blk: u32 }
pub open spec fn op_start(o: Op, n: int) -> int { (o.s & ((n - 1) as u32)) as int }
pub open spec fn step_ok(t: Seq<HashEntry>, o: Op, loc: u16, t2: Seq<HashEntry>) -> bool {
    match slot_for(t, op_start(o, t.len() as int), 0, o.a, o.b, loc) {
        Ok(i) => 0 <= i < t.len() && never_used(t[i]) && t2 == t.update(i, t2[i]) && entry_is(t2[i], o.a, o.b, loc, o.blk),
        Err(_) => t2 == t,
    }
}
/// the entries of t are exactly those of the first m operations (as far as their name hashes go)
pub open spec fn only(t: Seq<HashEntry>, ops: Seq<Op>, m: int) -> bool {
    forall|i: int| 0 <= i < t.len() && !never_used(#[trigger] t[i]) ==> exists|q: int| 0 <= q < m && t[i].name_1 == ops[q].a && t[i].name_2 == ops[q].b
}
pub open spec fn found(t: Seq<HashEntry>, o: Op, loc: u16) -> bool {
    match lookup(t, op_start(o, t.len() as int), 0, o.a, o.b, loc) { Some(i) => 0 <= i < t.len() && t[i].block_index == o.blk, None => false }
}
/// THEOREM (history): after any number of insertions of names with distinct hashes into a table with room,
/// every name resolves to its own block, and names with other hashes to nothing
pub proof fn thm_history(ts: Seq<Seq<HashEntry>>, ops: Seq<Op>, loc: u16, m: int)
    requires
        0 <= m <= ops.len(), ts.len() == ops.len() + 1, pow2(ts[0].len() as int),
        forall|i: int| 0 <= i < ts[0].len() ==> never_used(#[trigger] ts[0][i]),
        forall|q: int| 0 <= q < ops.len() ==> #[trigger] step_ok(ts[q], ops[q], loc, ts[q + 1]) && ops[q].blk < 0xFFFF_FFFEu32,
        forall|q: int| 0 <= q < ops.len() ==> has_room(#[trigger] ts[q]),
        forall|p: int, q: int| 0 <= p < q < ops.len() ==> #[trigger] ops[p].a != #[trigger] ops[q].a || ops[p].b != ops[q].b,
    ensures
        ts[m].len() == ts[0].len(), only(ts[m], ops, m),
        forall|q: int| 0 <= q < m ==> #[trigger] found(ts[m], ops[q], loc),
    decreases m
{
    if m > 0 {
        thm_history(ts, ops, loc, m - 1);
        let t = ts[m - 1]; let o = ops[m - 1]; let n = t.len() as int; let s = op_start(o, n); let t2 = ts[m];
        lemma_start(o.s, n);
        let q0 = m - 1; assert(step_ok(ts[q0], ops[q0], loc, ts[q0 + 1])); assert(step_ok(t, o, loc, t2)); assert(has_room(t));
        assert forall|i: int| 0 <= i < n implies !is_match(#[trigger] t[i], o.a, o.b, loc) && !(is_dup(t[i], o.a, o.b, loc) && !never_used(t[i])) by {
            if !never_used(t[i]) { let q = choose|q: int| 0 <= q < m - 1 && t[i].name_1 == ops[q].a && t[i].name_2 == ops[q].b; assert(ops[q].a != ops[m - 1].a || ops[q].b != ops[m - 1].b); }
        }
        let w = choose|i: int| 0 <= i < n && never_used(#[trigger] t[i]);
        let j = if w >= s { w - s } else { w - s + n };
        assert(0 <= j < n && w == probe(s, j, n));
        lemma_room(t, s, 0, o.a, o.b, loc, w);
        lemma_nodup(t, s, 0, o.a, o.b, loc);
        let i = slot_for(t, s, 0, o.a, o.b, loc)->Ok_0;
        let e = t2[i];
        thm_insert_found(t, i, e, s, 0);
        assert forall|q: int| 0 <= q < m implies #[trigger] found(t2, ops[q], loc) by {
            if q < m - 1 {
                assert(found(t, ops[q], loc));
                let sq = op_start(ops[q], n);
                lemma_start(ops[q].s, n);
                thm_insert_frame(t, i, e, sq, 0, ops[q].a, ops[q].b, loc);
                lemma_lookup_shape(t, sq, 0, ops[q].a, ops[q].b, loc);
            }
        }
        assert forall|x: int| 0 <= x < t2.len() && !never_used(#[trigger] t2[x]) implies exists|q: int| 0 <= q < m && t2[x].name_1 == ops[q].a && t2[x].name_2 == ops[q].b by {
            if x == i { assert(t2[x].name_1 == ops[m - 1].a); } else { assert(!never_used(t[x])); let q = choose|q: int| 0 <= q < m - 1 && t[x].name_1 == ops[q].a && t[x].name_2 == ops[q].b; assert(t2[x].name_1 == ops[q].a); }
        }
    }
}
pub proof fn lemma_nodup(t: Seq<HashEntry>, s: int, k: int, a: u32, b: u32, loc: u16)
    requires start_ok(s, t.len() as int), 0 <= k, forall|i: int| 0 <= i < t.len() ==> !(is_dup(#[trigger] t[i], a, b, loc) && !never_used(t[i]))
    ensures slot_for(t, s, k, a, b, loc) is Ok || !slot_for(t, s, k, a, b, loc)->Err_0
    decreases t.len() - k
{ if k < t.len() { let i = probe(s, k, t.len() as int); assert(!(is_dup(t[i], a, b, loc) && !never_used(t[i]))); lemma_nodup(t, s, k + 1, a, b, loc); } }
fn main() {}
}
