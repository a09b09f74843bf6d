verus! {
// ---------- specification: the MPQ cryptographic table (format specification) ----------
pub open spec fn lcg(s: u32) -> u32 { s.wrapping_mul(125u32).wrapping_add(3u32) % 0x2AAAABu32 }
pub open spec fn lcg_at(n: nat) -> u32 decreases n { if n == 0 { 0x00100001u32 } else { lcg(lcg_at((n - 1) as nat)) } }
pub open spec fn tab_at(i1: int, i2: int) -> u32 {
    (((lcg_at((2 * (i1 * 5 + i2) + 1) as nat) & 0xFFFFu32) << 0x10u32) | (lcg_at((2 * (i1 * 5 + i2) + 2) as nat) & 0xFFFFu32)) as u32
}
/// entry i of the table of 5 rows of 256 words
pub open spec fn tab(i: int) -> u32 { tab_at(i % 0x100, i / 0x100) }
pub open spec fn table_ok(t: Seq<u32>) -> bool { t.len() == 0x500 && forall|i: int| 0 <= i < 0x500 ==> #[trigger] t[i] == tab(i) }

//@extract mopaq/src/crypto/keys.rs generate_encryption_table
//@opts ret=r locals=table,seed,index1,index2,table_index,temp1,temp2 loops=2 types=index1:usize;index2:usize
//@spec
    ensures table_ok(r@)
//@loop 0
    invariant
        0 <= index1 <= 0x100, table@.len() == 0x500,
        seed == lcg_at((2 * (index1 * 5)) as nat),
        forall|i: int| 0 <= i < 0x500 && i % 0x100 < index1 ==> #[trigger] table@[i] == tab(i),
    decreases 0x100 - index1
//@loop 1
    invariant
        0 <= index1 < 0x100, 0 <= index2 <= 5, table@.len() == 0x500,
        seed == lcg_at((2 * (index1 * 5 + index2)) as nat),
        forall|i: int| 0 <= i < 0x500 && (i % 0x100 < index1 || (i % 0x100 == index1 && i / 0x100 < index2)) ==> #[trigger] table@[i] == tab(i),
    decreases 5 - index2
//@loop-start 1
    let ghost vp_old = table@;
    proof {
        assert(lcg_at((2 * (index1 * 5 + index2) + 1) as nat) == lcg(lcg_at((2 * (index1 * 5 + index2)) as nat)));
        assert(lcg_at((2 * (index1 * 5 + index2) + 2) as nat) == lcg(lcg_at((2 * (index1 * 5 + index2) + 1) as nat)));
        assert((index1 + index2 * 0x100) as int % 0x100 == index1) by (nonlinear_arith) requires 0 <= index1 < 0x100, 0 <= index2 < 5;
        assert((index1 + index2 * 0x100) as int / 0x100 == index2) by (nonlinear_arith) requires 0 <= index1 < 0x100, 0 <= index2 < 5;
    }
//@loop-end 1
    proof {
        let j = (index1 + (index2 - 1) * 0x100) as int;
        assert(table@[j] == tab(j));
        assert forall|i: int| 0 <= i < 0x500 && (i % 0x100 < index1 || (i % 0x100 == index1 && i / 0x100 < index2)) implies #[trigger] table@[i] == tab(i) by {
            if i != j { assert(table@[i] == vp_old[i]); 
              if i % 0x100 == index1 && i / 0x100 == index2 - 1 { assert(i == index1 + (index2 - 1) * 0x100); }
            }
        }
    }
//@end

//@extract mopaq/src/crypto/keys.rs const:ENCRYPTION_TABLE
//@subst pub const ENCRYPTION_TABLE: [u32; 0x500] = generate_encryption_table(); ==> pub exec const ENCRYPTION_TABLE: [u32; 0x500] ensures table_ok(ENCRYPTION_TABLE@) { generate_encryption_table() }
//@end
}
