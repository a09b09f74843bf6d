verus! {
// ---------- specification: where the classic tables locate a name ----------
/// a file's place in the archive
pub struct Loc { pub pos: int, pub csize: int, pub size: int, pub flags: u32, pub block: int }
pub open spec fn loc_of(f: FileInfo) -> Loc { Loc { pos: f.file_pos as int, csize: f.compressed_size as int, size: f.file_size as int, flags: f.flags, block: f.block_index as int } }
/// the format's 48-bit position of block i
pub open spec fn pos48(lo: u32, hi: Option<HiBlockTable>, i: int) -> int { lo + 0x1_0000_0000 * (if hi is Some && i < (hi->0).entries@.len() { (hi->0).entries@[i] as int } else { 0 }) }
/// every table the constructors hand out has a power-of-two size
pub open spec fn hwf(h: Option<HashTable>) -> bool { h is Some ==> pow2((h->0).entries@.len() as int) }
/// the slot a name is found in
pub open spec fn slot_of(t: Seq<HashEntry>, n: Seq<u8>) -> Option<int> { lookup(t, start_of(n, t.len() as int), 0, mpq_hash(n, 1), mpq_hash(n, 2), 0) }
pub open spec fn classic(h: Option<HashTable>, b: Option<BlockTable>, hi: Option<HiBlockTable>, off: u64, n: Seq<u8>) -> Result<Option<Loc>> {
    if h is None || b is None { Err(Error { vp: 0 }) }
    else {
        let s = slot_of((h->0).entries@, n);
        if s is None { Ok(None) }
        else {
            let i = (h->0).entries@[s->0].block_index as int; let e = (b->0).entries@[i];
            if i >= (b->0).entries@.len() { Err(Error { vp: 0 }) }
            else { Ok(Some(Loc { pos: off + pos48(e.file_pos, hi, i), csize: e.compressed_size as int, size: e.file_size as int, flags: e.flags, block: i })) }
        }
    }
}
}
