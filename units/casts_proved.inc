//@traitimpl expanded:decimal UintCast<u8> u128
//@m uint_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u8> u128
//@m uint_checked_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCast<u8> U128
//@m uint_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u8> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCast<u8> U192
//@m uint_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u8> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCast<u8> U256
//@m uint_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u8> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCast<u8> U320
//@m uint_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u8> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCast<u8> U384
//@m uint_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u8> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCast<u8> U448
//@m uint_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u8> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCast<u8> U512
//@m uint_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u8> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCast<u16> u128
//@m uint_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u16> u128
//@m uint_checked_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCast<u16> U128
//@m uint_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u16> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCast<u16> U192
//@m uint_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u16> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCast<u16> U256
//@m uint_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u16> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCast<u16> U320
//@m uint_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u16> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCast<u16> U384
//@m uint_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u16> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCast<u16> U448
//@m uint_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u16> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCast<u16> U512
//@m uint_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u16> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCast<u32> u128
//@m uint_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u32> u128
//@m uint_checked_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCast<u32> U128
//@m uint_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u32> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCast<u32> U192
//@m uint_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u32> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCast<u32> U256
//@m uint_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u32> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCast<u32> U320
//@m uint_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u32> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCast<u32> U384
//@m uint_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u32> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCast<u32> U448
//@m uint_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u32> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCast<u32> U512
//@m uint_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u32> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCast<u64> u128
//@m uint_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u64> u128
//@m uint_checked_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCast<u64> U128
//@m uint_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u64> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCast<u64> U192
//@m uint_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u64> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCast<u64> U256
//@m uint_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u64> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCast<u64> U320
//@m uint_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u64> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCast<u64> U384
//@m uint_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u64> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCast<u64> U448
//@m uint_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u64> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCast<u64> U512
//@m uint_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u64> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCast<u128> U128
//@m uint_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u128> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCast<u128> U192
//@m uint_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u128> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCast<u128> U256
//@m uint_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u128> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCast<u128> U320
//@m uint_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u128> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCast<u128> U384
//@m uint_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u128> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCast<u128> U448
//@m uint_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u128> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCast<u128> U512
//@m uint_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<u128> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCast<U128> u8
//@m uint_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> u8
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> u16
//@m uint_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> u16
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> u32
//@m uint_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> u32
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> u64
//@m uint_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> u64
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> u128
//@m uint_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> u128
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> U192
//@m uint_cast
//@pre
        proof { reveal(u128_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> U256
//@m uint_cast
//@pre
        proof { reveal(u128_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> U320
//@m uint_cast
//@pre
        proof { reveal(u128_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> U384
//@m uint_cast
//@pre
        proof { reveal(u128_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> U448
//@m uint_cast
//@pre
        proof { reveal(u128_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U128> U512
//@m uint_cast
//@pre
        proof { reveal(u128_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U128> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> u8
//@m uint_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> u8
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> u16
//@m uint_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> u16
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> u32
//@m uint_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> u32
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> u64
//@m uint_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> u64
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> u128
//@m uint_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> u128
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> U128
//@m uint_cast
//@pre
        proof { reveal(u192_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> U256
//@m uint_cast
//@pre
        proof { reveal(u192_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> U320
//@m uint_cast
//@pre
        proof { reveal(u192_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> U384
//@m uint_cast
//@pre
        proof { reveal(u192_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> U448
//@m uint_cast
//@pre
        proof { reveal(u192_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U192> U512
//@m uint_cast
//@pre
        proof { reveal(u192_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U192> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> u8
//@m uint_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> u8
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> u16
//@m uint_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> u16
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> u32
//@m uint_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> u32
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> u64
//@m uint_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> u64
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> u128
//@m uint_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> u128
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> U128
//@m uint_cast
//@pre
        proof { reveal(u256_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> U192
//@m uint_cast
//@pre
        proof { reveal(u256_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> U320
//@m uint_cast
//@pre
        proof { reveal(u256_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> U384
//@m uint_cast
//@pre
        proof { reveal(u256_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> U448
//@m uint_cast
//@pre
        proof { reveal(u256_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U256> U512
//@m uint_cast
//@pre
        proof { reveal(u256_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U256> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> u8
//@m uint_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> u8
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> u16
//@m uint_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> u16
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> u32
//@m uint_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> u32
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> u64
//@m uint_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> u64
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> u128
//@m uint_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> u128
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> U128
//@m uint_cast
//@pre
        proof { reveal(u320_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> U192
//@m uint_cast
//@pre
        proof { reveal(u320_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> U256
//@m uint_cast
//@pre
        proof { reveal(u320_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> U384
//@m uint_cast
//@pre
        proof { reveal(u320_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> U448
//@m uint_cast
//@pre
        proof { reveal(u320_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U320> U512
//@m uint_cast
//@pre
        proof { reveal(u320_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U320> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> u8
//@m uint_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> u8
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> u16
//@m uint_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> u16
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> u32
//@m uint_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> u32
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> u64
//@m uint_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> u64
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> u128
//@m uint_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> u128
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> U128
//@m uint_cast
//@pre
        proof { reveal(u384_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> U192
//@m uint_cast
//@pre
        proof { reveal(u384_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> U256
//@m uint_cast
//@pre
        proof { reveal(u384_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> U320
//@m uint_cast
//@pre
        proof { reveal(u384_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> U448
//@m uint_cast
//@pre
        proof { reveal(u384_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U384> U512
//@m uint_cast
//@pre
        proof { reveal(u384_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U384> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> u8
//@m uint_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> u8
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> u16
//@m uint_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> u16
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> u32
//@m uint_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> u32
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> u64
//@m uint_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> u64
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> u128
//@m uint_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> u128
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> U128
//@m uint_cast
//@pre
        proof { reveal(u448_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> U192
//@m uint_cast
//@pre
        proof { reveal(u448_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> U256
//@m uint_cast
//@pre
        proof { reveal(u448_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> U320
//@m uint_cast
//@pre
        proof { reveal(u448_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> U384
//@m uint_cast
//@pre
        proof { reveal(u448_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U448> U512
//@m uint_cast
//@pre
        proof { reveal(u448_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U448> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> u8
//@m uint_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> u8
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> u16
//@m uint_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> u16
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> u32
//@m uint_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> u32
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> u64
//@m uint_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> u64
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> u128
//@m uint_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> u128
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> U128
//@m uint_cast
//@pre
        proof { reveal(u512_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); reveal(u128_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> U192
//@m uint_cast
//@pre
        proof { reveal(u512_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); reveal(u192_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> U256
//@m uint_cast
//@pre
        proof { reveal(u512_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); reveal(u256_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> U320
//@m uint_cast
//@pre
        proof { reveal(u512_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); reveal(u320_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> U384
//@m uint_cast
//@pre
        proof { reveal(u512_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); reveal(u384_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<U512> U448
//@m uint_cast
//@pre
        proof { reveal(u512_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCheckedCast<U512> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); reveal(u448_val); broadcast use or_zero; }
//@end
//@traitimpl expanded:decimal UintCast<i32> u128
//@m uint_cast
//@pre
        proof {  }
//@end
//@traitimpl expanded:decimal UintCast<i32> U128
//@m uint_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<i32> U128
//@m uint_checked_cast
//@pre
        proof { reveal(u128_val); }
//@end
//@traitimpl expanded:decimal UintCast<i32> U192
//@m uint_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<i32> U192
//@m uint_checked_cast
//@pre
        proof { reveal(u192_val); }
//@end
//@traitimpl expanded:decimal UintCast<i32> U256
//@m uint_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<i32> U256
//@m uint_checked_cast
//@pre
        proof { reveal(u256_val); }
//@end
//@traitimpl expanded:decimal UintCast<i32> U320
//@m uint_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<i32> U320
//@m uint_checked_cast
//@pre
        proof { reveal(u320_val); }
//@end
//@traitimpl expanded:decimal UintCast<i32> U384
//@m uint_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<i32> U384
//@m uint_checked_cast
//@pre
        proof { reveal(u384_val); }
//@end
//@traitimpl expanded:decimal UintCast<i32> U448
//@m uint_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<i32> U448
//@m uint_checked_cast
//@pre
        proof { reveal(u448_val); }
//@end
//@traitimpl expanded:decimal UintCast<i32> U512
//@m uint_cast
//@pre
        proof { reveal(u512_val); }
//@end
//@traitimpl expanded:decimal UintCheckedCast<i32> U512
//@m uint_checked_cast
//@pre
        proof { reveal(u512_val); }
//@end
