//@@ module
//@@ fn GO_BUZHASH @C22 ~C11
    ensures GO_BUZHASH@ =~= gold_go_buzhash() // @C22
//@@ fn BORG_BUZHASH_BASE @C22
    ensures BORG_BUZHASH_BASE@ =~= gold_borg_base() // @C22
//@@ fn borg_buzhash_table @C22
    ensures r@.len() == 256, forall|j: int| 0 <= j < 256 ==> r@[j] == gold_borg_base()[j] ^ $1, // @C22
//@@ body borg_buzhash_table
    broadcast use super::lemma_xor_comm_u32;
//@@ loop borg_buzhash_table 0
    invariant
        t@.len() == 256,
        forall|j: int| 0 <= j < $i ==> t@[j] == gold_borg_base()[j] ^ $1,
