pub proof fn lemma_p10_0() ensures p10(0) == 1, ipow(10, 0) == 1 { assert(ipow(10, 0) == 1) by (compute); }
pub proof fn lemma_p10_5() ensures p10(5) == 100000, ipow(10, 5) == 100000 { assert(ipow(10, 5) == 100000) by (compute); }
pub proof fn lemma_p10_12() ensures p10(12) == 1000000000000, ipow(10, 12) == 1000000000000 { assert(ipow(10, 12) == 1000000000000) by (compute); }
pub proof fn lemma_p10_19() ensures p10(19) == 10000000000000000000, ipow(10, 19) == 10000000000000000000 { assert(ipow(10, 19) == 10000000000000000000) by (compute); }
pub proof fn lemma_p10_24() ensures p10(24) == 1000000000000000000000000, ipow(10, 24) == 1000000000000000000000000 { assert(ipow(10, 24) == 1000000000000000000000000) by (compute); }
pub proof fn lemma_p10_25() ensures p10(25) == 10000000000000000000000000, ipow(10, 25) == 10000000000000000000000000 { assert(ipow(10, 25) == 10000000000000000000000000) by (compute); }
pub proof fn lemma_p10_28() ensures p10(28) == 10000000000000000000000000000, ipow(10, 28) == 10000000000000000000000000000 { assert(ipow(10, 28) == 10000000000000000000000000000) by (compute); }
pub assume_specification [ u128::checked_pow ] (a: u128, e: u32) -> (r: Option<u128>)
    ensures match r { Some(x) => x as int == ipow(a as int, e as nat), None => ipow(a as int, e as nat) > u128::MAX };
