//@include inc_prelude.rs
//@include inc_table.rs
//@include inc_cipher.rs
//@include inc_le.rs
//@include inc_bytes.rs
//@include inc_bits.rs
//@include inc_betl.rs
verus! {
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize)
    requires b == 8
    ensures r == ceil8(a as int);
pub struct ArchiveBuilder { pub vp: u8 }
impl ArchiveBuilder {
//@extract mopaq/src/builder.rs ArchiveBuilder::write_bit_entry
//@opts ret=r locals=data,index,value,bit_size,bit_offset,byte_offset,bit_shift,bits_needed,bytes_needed,existing,i,value_mask,mask loops=2
//@spec
    requires index * bit_size <= usize::MAX, len_ok(old(data)@.len() as int)
    ensures
        final(data)@.len() == old(data)@.len(),
        r is Ok <==> (index * bit_size) / 8 + ceil8((index * bit_size) % 8 + bit_size) <= old(data)@.len() && (index * bit_size) % 8 + bit_size <= 128,
        r is Ok ==> written(old(data)@, final(data)@, (index * bit_size) as int, bit_size as int, value),
        r is Err ==> final(data)@ == old(data)@,
//@body-start
    let ghost vp_d = data@; let ghost vp_w = bit_size as int; let ghost vp_o = (index * bit_size) as int;
//@loop 0
    invariant
        data@ == vp_d, byte_offset == vp_o / 8, bytes_needed <= 16, byte_offset + bytes_needed <= vp_d.len(), len_ok(vp_d.len() as int),
        forall|k: int| 0 <= k < 128 ==> #[trigger] vbit(existing, k) == (k < 8 * i && bit(vp_d, 8 * byte_offset + k)),
//@loop-before 0
    proof { assert forall|k: int| 0 <= k < 128 implies !#[trigger] vbit(0u128, k) by { lemma_zero(k); } }
//@loop-start 0
    let ghost vp_e = existing;
//@loop-end 0
    proof {
        let b = vp_d[byte_offset + i];
        assert forall|k: int| 0 <= k < 128 implies #[trigger] vbit(existing, k) == (k < 8 * (i + 1) && bit(vp_d, 8 * byte_offset + k)) by {
            assert(vbit(vp_e, k) == (k < 8 * i && bit(vp_d, 8 * byte_offset + k)));
            lemma_or(vp_e, (b as u128) << ((i * 8) as u128), k);
            lemma_shl(b as u128, (i * 8) as int, k);
            if k >= 8 * i { lemma_byte(b, k - 8 * i); }
            assert((8 * byte_offset + k) / 8 == byte_offset + k / 8 && (8 * byte_offset + k) % 8 == k % 8);
        }
    }
//@loop-after 0
    proof { if bit_size < 128 { lemma_ones(vp_w, 0); } }
    let ghost vp_x = existing;
//@loop-before 1
    let ghost vp_y = existing;
    proof {
        assert forall|k: int| 0 <= k < 8 * bytes_needed implies #[trigger] vbit(vp_y, k) == (if bit_shift <= k < bit_shift + vp_w { vbit(value, k - bit_shift) } else { bit(vp_d, 8 * byte_offset + k) }) by {
            assert(vbit(vp_x, k) == (k < 8 * bytes_needed && bit(vp_d, 8 * byte_offset + k)));
            lemma_or(vp_x & !mask, (value & value_mask) << (bit_shift as u128), k);
            lemma_and(vp_x, !mask, k); lemma_not(mask, k);
            lemma_shl(value_mask, bit_shift as int, k); lemma_shl(value & value_mask, bit_shift as int, k);
            if k >= bit_shift {
                lemma_and(value, value_mask, k - bit_shift);
                if bit_size >= 128 { lemma_max(k - bit_shift); } else { lemma_ones(vp_w, k - bit_shift); }
            }
        }
    }
//@loop 1
    invariant
        data@.len() == vp_d.len(), existing == vp_y, byte_offset == vp_o / 8, bytes_needed <= 16, byte_offset + bytes_needed <= vp_d.len(), len_ok(vp_d.len() as int),
        forall|j: int| 0 <= j < vp_d.len() && !(byte_offset <= j < byte_offset + i) ==> data@[j] == vp_d[j],
        forall|j: int| byte_offset <= j < byte_offset + i ==> #[trigger] data@[j] == (vp_y >> (((j - byte_offset) * 8) as u128)) as u8,
//@loop-after 1
    proof {
        assert forall|k: int| 0 <= k < 8 * vp_d.len() implies #[trigger] bit(data@, k) == (if vp_o <= k < vp_o + vp_w { vbit(value, k - vp_o) } else { bit(vp_d, k) }) by {
            let j = k / 8;
            if byte_offset <= j < byte_offset + bytes_needed {
                let q = j - byte_offset;
                assert(data@[j] == (vp_y >> ((q * 8) as u128)) as u8);
                lemma_trunc8(vp_y >> ((q * 8) as u128), k % 8);
                lemma_shr(vp_y, q * 8, k % 8);
                let m = q * 8 + k % 8;
                assert(m == k - 8 * byte_offset);
                assert(vbit(vp_y, m) == (if bit_shift <= m < bit_shift + vp_w { vbit(value, m - bit_shift) } else { bit(vp_d, 8 * byte_offset + m) }));
            }
        }
    }
//@end
}
pub open spec fn is_bits(r: u64, value: u128, off: int, cnt: int) -> bool { forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(r, k) == (k < cnt && k + off < 128 && vbit(value, k + off)) }
pub open spec fn the_bits(value: u128, off: int, cnt: int) -> u64 { choose|r: u64| is_bits(r, value, off, cnt) }
pub proof fn lemma_the_bits(r: u64, value: u128, off: int, cnt: int) requires is_bits(r, value, off, cnt) ensures r == the_bits(value, off, cnt)
{ assert(is_bits(the_bits(value, off, cnt), value, off, cnt)); thm_same_bits(r, the_bits(value, off, cnt)); }
impl BetTable {
//@extract mopaq/src/tables/bet.rs BetTable::extract_bits
//@opts ret=r locals=value,bit_offset,bit_count,mask loops=0
//@spec
    ensures is_bits(r, value, bit_offset as int, bit_count as int), r == the_bits(value, bit_offset as int, bit_count as int),
//@body-start
    proof {
        if bit_offset < 128 {
            let v = value >> (bit_offset as u128);
            let m: u64 = if bit_count >= 64 { u64::MAX } else { ((1u64 << (bit_count as u64)) - 1) as u64 };
            if bit_count < 64 { lemma_wones(bit_count as int, 0); }
            assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit((v as u64) & m, k) == (k < bit_count && k + bit_offset < 128 && vbit(value, k + bit_offset)) by {
                lemma_wand(v as u64, m, k); lemma_trunc64(v, k); lemma_shr(value, bit_offset as int, k);
                if bit_count >= 64 { lemma_wmax(k); } else { lemma_wones(bit_count as int, k); }
            }
            lemma_the_bits((v as u64) & m, value, bit_offset as int, bit_count as int);
        } else {
            assert forall|k: int| 0 <= k < 64 implies !#[trigger] wbit(0u64, k) by { lemma_wzero(k); }
            lemma_the_bits(0u64, value, bit_offset as int, bit_count as int);
        }
    }
//@end
//@extract mopaq/src/tables/bet.rs BetTable::read_table_entry
//@opts ret=r locals=index,entry_size,bit_offset,byte_offset,bit_shift,bytes_needed,value,i,mask loops=1
//@spec
    requires len_ok(self.file_table@.len() as int)
    ensures
        r is Some <==> readable(self.file_table@, index as int, self.header.table_entry_size as int),
        r is Some ==> forall|k: int| 0 <= k < 128 ==> #[trigger] vbit(r->0, k) == (k < self.header.table_entry_size && bit(self.file_table@, index * self.header.table_entry_size + k)),
//@body-start
    let ghost vp_d = self.file_table@; let ghost vp_w = self.header.table_entry_size as int; let ghost vp_o = (index * self.header.table_entry_size) as int;
//@loop-before 0
    proof { assert forall|k: int| 0 <= k < 128 implies !#[trigger] vbit(0u128, k) by { lemma_zero(k); } }
//@loop 0
    invariant
        self.file_table@ == vp_d, byte_offset == vp_o / 8, bytes_needed <= 16, byte_offset + bytes_needed <= vp_d.len(), len_ok(vp_d.len() as int),
        forall|k: int| 0 <= k < 128 ==> #[trigger] vbit(value, k) == (k < 8 * i && bit(vp_d, 8 * byte_offset + k)),
//@loop-start 0
    let ghost vp_e = value;
//@loop-end 0
    proof {
        let b = vp_d[byte_offset + i];
        assert forall|k: int| 0 <= k < 128 implies #[trigger] vbit(value, k) == (k < 8 * (i + 1) && bit(vp_d, 8 * byte_offset + k)) by {
            assert(vbit(vp_e, k) == (k < 8 * i && bit(vp_d, 8 * byte_offset + k)));
            lemma_or(vp_e, (b as u128) << ((i * 8) as u128), k);
            lemma_shl(b as u128, (i * 8) as int, k);
            if k >= 8 * i { lemma_byte(b, k - 8 * i); }
            assert((8 * byte_offset + k) / 8 == byte_offset + k / 8 && (8 * byte_offset + k) % 8 == k % 8);
        }
    }
//@loop-after 0
    proof {
        if entry_size < 128 { lemma_ones(vp_w, 0); }
        let m: u128 = if entry_size >= 128 { u128::MAX } else { ((1u128 << (entry_size as u128)) - 1) as u128 };
        assert forall|k: int| 0 <= k < 128 implies #[trigger] vbit((value >> (bit_shift as u128)) & m, k) == (k < vp_w && bit(vp_d, vp_o + k)) by {
            lemma_and(value >> (bit_shift as u128), m, k); lemma_shr(value, bit_shift as int, k);
            if entry_size >= 128 { lemma_max(k); } else { lemma_ones(vp_w, k); }
            if k < vp_w {
                let q = k + bit_shift;
                assert(q < 8 * bytes_needed);
                assert(vbit(value, q) == (q < 8 * bytes_needed && bit(vp_d, 8 * byte_offset + q)));
                assert(8 * byte_offset + q == vp_o + k);
            }
        }
    }
//@end
//@extract mopaq/src/tables/bet.rs BetTable::get_file_info
//@opts ret=r locals=index,entry_bits,file_pos,file_size,cmp_size,flag_index,flags loops=0
//@spec
    requires len_ok(self.file_table@.len() as int), self.header.flag_count <= self.file_flags@.len()
    ensures
        r is Some <==> index < self.header.file_count && readable(self.file_table@, index as int, self.header.table_entry_size as int),
        r is Some ==> info_of(*self, index as int, r->0),
//@after-let flag_index
    proof {
        let f = the_bits(entry_bits, self.header.bit_index_flag_index as int, self.header.bit_count_flag_index as int);
        assert(field(f, self.file_table@, (index * self.header.table_entry_size) as int, self.header.bit_index_flag_index as int, self.header.bit_count_flag_index as int, self.header.table_entry_size as int));
    }
//@end
}
/// Writing an entry and reading any field inside it gives the value's bits of that field; a field of another entry is unchanged.
pub proof fn thm_entry_rt(d1: Seq<u8>, d2: Seq<u8>, index: int, w: int, v: u128, off: int, cnt: int, r: u64)
    requires 0 <= index, 0 < w <= 128, 0 <= off, 0 <= cnt <= 64, off + cnt <= w, written(d1, d2, index * w, w, v), index * w + w <= 8 * d2.len(), field(r, d2, index * w, off, cnt, w)
    ensures forall|k: int| 0 <= k < 64 ==> #[trigger] wbit(r, k) == (k < cnt && vbit(v, off + k))
{
    assert(index * w >= 0) by (nonlinear_arith) requires index >= 0, w > 0;
    assert forall|k: int| 0 <= k < 64 implies #[trigger] wbit(r, k) == (k < cnt && vbit(v, off + k)) by {
        if k < cnt { let j = index * w + off + k; assert(bit(d2, j) == vbit(v, off + k)); }
    }
}
pub proof fn thm_entry_frame(d1: Seq<u8>, d2: Seq<u8>, index: int, other: int, w: int, v: u128)
    requires 0 <= index, 0 <= other, other != index, 0 < w <= 128, written(d1, d2, index * w, w, v), other * w + w <= 8 * d2.len()
    ensures forall|k: int| 0 <= k < w ==> #[trigger] bit(d2, other * w + k) == bit(d1, other * w + k)
{
    assert(other * w >= 0) by (nonlinear_arith) requires other >= 0, w > 0;
    if other < index { assert(other * w + w <= index * w) by (nonlinear_arith) requires other + 1 <= index, w > 0; }
    else { assert(index * w + w <= other * w) by (nonlinear_arith) requires index + 1 <= other, w > 0; }
    assert forall|k: int| 0 <= k < w implies #[trigger] bit(d2, other * w + k) == bit(d1, other * w + k) by { let j = other * w + k; assert(bit(d2, j) == bit(d1, j)); }
}
fn main() {}
}
