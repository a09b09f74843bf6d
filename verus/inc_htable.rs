verus! {
// ---------- specification: the classic hash table ----------
pub open spec fn pow2(n: int) -> bool { 0 < n <= 0x8000_0000 && (n as u64) & ((n - 1) as u64) == 0 }
/// k-th slot of the probe sequence that starts at s
pub open spec fn probe(s: int, k: int, n: int) -> int { if s + k < n { s + k } else { s + k - n } }
pub open spec fn is_match(e: HashEntry, a: u32, b: u32, loc: u16) -> bool {
    e.name_1 == a && e.name_2 == b && (loc == 0 || e.locale == 0 || e.locale == loc) && e.block_index < 0xFFFF_FFFEu32
}
pub open spec fn entry_is(e: HashEntry, a: u32, b: u32, loc: u16, blk: u32) -> bool { e.name_1 == a && e.name_2 == b && e.locale == loc && e.block_index == blk }
pub open spec fn never_used(e: HashEntry) -> bool { e.block_index == 0xFFFF_FFFFu32 }
pub open spec fn is_dup(e: HashEntry, a: u32, b: u32, loc: u16) -> bool { e.name_1 == a && e.name_2 == b && e.locale == loc }
/// what a conforming reader finds from the k-th probe on
pub open spec fn lookup(t: Seq<HashEntry>, s: int, k: int, a: u32, b: u32, loc: u16) -> Option<int> decreases t.len() - k {
    if k >= t.len() { None }
    else { let i = probe(s, k, t.len() as int);
        if is_match(t[i], a, b, loc) { Some(i) } else if never_used(t[i]) { None } else { lookup(t, s, k + 1, a, b, loc) } }
}
/// where an insertion goes: Ok(slot), Err(true) = duplicate, Err(false) = no room
pub open spec fn slot_for(t: Seq<HashEntry>, s: int, k: int, a: u32, b: u32, loc: u16) -> core::result::Result<int, bool> decreases t.len() - k {
    if k >= t.len() { Err(false) }
    else { let i = probe(s, k, t.len() as int);
        if never_used(t[i]) { Ok(i) } else if is_dup(t[i], a, b, loc) { Err(true) } else { slot_for(t, s, k + 1, a, b, loc) } }
}
pub open spec fn start_of(name: Seq<u8>, n: int) -> int { (mpq_hash(name, 0) & ((n - 1) as u32)) as int }
pub open spec fn start_ok(s: int, n: int) -> bool { 0 <= s < n }
pub open spec fn has_room(t: Seq<HashEntry>) -> bool { exists|i: int| 0 <= i < t.len() && never_used(#[trigger] t[i]) }

pub proof fn lemma_mask_step(i: u64, n: u64)
    requires 0 < n <= 0x8000_0000, n & ((n - 1) as u64) == 0, i < n
    ensures ((i + 1) as u64) & ((n - 1) as u64) == (if i + 1 == n { 0 } else { (i + 1) as u64 })
{
    let m = (n - 1) as u64; let j = (i + 1) as u64;
    assert(n & m == 0 && m == n - 1 && j <= n && n > 0 && j > 0 && n <= 0x8000_0000 ==> j & m == (if j == n { 0u64 } else { j })) by (bit_vector);
}
pub proof fn lemma_mask_step32(i: u32, n: u32)
    requires 0 < n <= 0x8000_0000, (n as u64) & ((n - 1) as u64) == 0, i < n
    ensures ((i + 1) as u32) & ((n - 1) as u32) == (if i + 1 == n { 0 } else { (i + 1) as u32 })
{
    let m = (n - 1) as u32; let j = (i + 1) as u32;
    let n64 = n as u64; let m64 = (n - 1) as u64;
    assert(n64 & m64 == 0 && n64 == n as u64 && m64 == m as u64 ==> n & m == 0) by (bit_vector);
    assert(n & m == 0 && m == n - 1 && j <= n && n > 0 && j > 0 && n <= 0x8000_0000 ==> j & m == (if j == n { 0u32 } else { j })) by (bit_vector);
}
pub proof fn lemma_start(h: u32, n: int)
    requires pow2(n)
    ensures 0 <= (h & ((n - 1) as u32)) < n, (h as u64) & ((n - 1) as u64) == (h & ((n - 1) as u32)) as u64
{
    let m = (n - 1) as u32; let m64 = (n - 1) as u64;
    assert(h & m <= m) by (bit_vector);
    assert(m64 == m as u64 ==> (h as u64) & m64 == (h & m) as u64) by (bit_vector);
}
/// a lookup result is a slot that matches, reached over slots that neither match nor stop
pub proof fn lemma_lookup_shape(t: Seq<HashEntry>, s: int, k: int, a: u32, b: u32, loc: u16)
    requires start_ok(s, t.len() as int), 0 <= k
    ensures
        match lookup(t, s, k, a, b, loc) {
            Some(i) => 0 <= i < t.len() && is_match(t[i], a, b, loc) && exists|j: int| k <= j < t.len() && i == #[trigger] probe(s, j, t.len() as int)
                && forall|m: int| k <= m < j ==> !never_used(t[#[trigger] probe(s, m, t.len() as int)]) && !is_match(t[probe(s, m, t.len() as int)], a, b, loc),
            None => true,
        }
    decreases t.len() - k
{
    if k < t.len() {
        let n = t.len() as int; let i = probe(s, k, n);
        if is_match(t[i], a, b, loc) { assert(i == probe(s, k, n)); }
        else if !never_used(t[i]) {
            lemma_lookup_shape(t, s, k + 1, a, b, loc);
            if lookup(t, s, k + 1, a, b, loc) is Some {
                let r = lookup(t, s, k + 1, a, b, loc)->0;
                let j = choose|j: int| k + 1 <= j < n && r == #[trigger] probe(s, j, n) && forall|m: int| k + 1 <= m < j ==> !never_used(t[#[trigger] probe(s, m, n)]) && !is_match(t[probe(s, m, n)], a, b, loc);
                assert forall|m: int| k <= m < j implies !never_used(t[#[trigger] probe(s, m, n)]) && !is_match(t[probe(s, m, n)], a, b, loc) by { if m == k { } else { } }
                assert(r == probe(s, j, n));
            }
        }
    }
}
/// THEOREM: an insertion at a never-used slot does not change what any other stored name resolves to
pub proof fn thm_insert_frame(t: Seq<HashEntry>, slot: int, e: HashEntry, s: int, k: int, a: u32, b: u32, loc: u16)
    requires start_ok(s, t.len() as int), 0 <= slot < t.len(), never_used(t[slot]), 0 <= k, lookup(t, s, k, a, b, loc) is Some
    ensures lookup(t.update(slot, e), s, k, a, b, loc) == lookup(t, s, k, a, b, loc)
    decreases t.len() - k
{
    let n = t.len() as int; let i = probe(s, k, n);
    if !is_match(t[i], a, b, loc) { thm_insert_frame(t, slot, e, s, k + 1, a, b, loc); }
}
/// THEOREM: names whose hashes match no entry are not found
pub proof fn thm_absent(t: Seq<HashEntry>, s: int, k: int, a: u32, b: u32, loc: u16)
    requires start_ok(s, t.len() as int), 0 <= k, forall|i: int| 0 <= i < t.len() ==> !is_match(#[trigger] t[i], a, b, loc)
    ensures lookup(t, s, k, a, b, loc) is None
    decreases t.len() - k
{ if k < t.len() { assert(!is_match(t[probe(s, k, t.len() as int)], a, b, loc)); thm_absent(t, s, k + 1, a, b, loc); } }
/// THEOREM: a name just inserted is found at its own slot (no other entry carries its hashes)
pub proof fn thm_insert_found(t: Seq<HashEntry>, slot: int, e: HashEntry, s: int, k: int)
    requires start_ok(s, t.len() as int), 0 <= k, slot_for(t, s, k, e.name_1, e.name_2, e.locale) == core::result::Result::<int, bool>::Ok(slot), e.block_index < 0xFFFF_FFFEu32,
        forall|i: int| 0 <= i < t.len() ==> !is_match(#[trigger] t[i], e.name_1, e.name_2, e.locale)
    ensures lookup(t.update(slot, e), s, k, e.name_1, e.name_2, e.locale) == Some(slot), 0 <= slot < t.len(), never_used(t[slot])
    decreases t.len() - k
{
    let n = t.len() as int;
    if k < n { let i = probe(s, k, n); assert(!is_match(t[i], e.name_1, e.name_2, e.locale)); if !never_used(t[i]) { thm_insert_found(t, slot, e, s, k + 1); } }
}
/// while there is room an insertion finds a slot or a duplicate
pub proof fn lemma_room(t: Seq<HashEntry>, s: int, k: int, a: u32, b: u32, loc: u16, i: int)
    requires start_ok(s, t.len() as int), 0 <= k <= t.len(), 0 <= i < t.len(), never_used(t[i]), exists|j: int| k <= j < t.len() && i == probe(s, j, t.len() as int)
    ensures slot_for(t, s, k, a, b, loc) is Ok || slot_for(t, s, k, a, b, loc)->Err_0
    decreases t.len() - k
{
    let n = t.len() as int;
    let j = choose|j: int| k <= j < n && i == probe(s, j, n);
    if k < n { let p = probe(s, k, n); if !never_used(t[p]) && !is_dup(t[p], a, b, loc) { assert(j != k); assert(k + 1 <= j < n && i == probe(s, j, n)); lemma_room(t, s, k + 1, a, b, loc, i); } }
}
}
