impl UintCast<u8> for u128 { #[verifier::external_body] fn uint_cast(value: u8) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<u8> for u128 { #[verifier::external_body] fn uint_checked_cast(value: u8) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<u8> for U128 { #[verifier::external_body] fn uint_cast(value: u8) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<u8> for U128 { #[verifier::external_body] fn uint_checked_cast(value: u8) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<u8> for U192 { #[verifier::external_body] fn uint_cast(value: u8) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<u8> for U192 { #[verifier::external_body] fn uint_checked_cast(value: u8) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<u8> for U256 { #[verifier::external_body] fn uint_cast(value: u8) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<u8> for U256 { #[verifier::external_body] fn uint_checked_cast(value: u8) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<u8> for U320 { #[verifier::external_body] fn uint_cast(value: u8) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<u8> for U320 { #[verifier::external_body] fn uint_checked_cast(value: u8) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<u8> for U384 { #[verifier::external_body] fn uint_cast(value: u8) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<u8> for U384 { #[verifier::external_body] fn uint_checked_cast(value: u8) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<u8> for U448 { #[verifier::external_body] fn uint_cast(value: u8) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<u8> for U448 { #[verifier::external_body] fn uint_checked_cast(value: u8) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<u8> for U512 { #[verifier::external_body] fn uint_cast(value: u8) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<u8> for U512 { #[verifier::external_body] fn uint_checked_cast(value: u8) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<u16> for u128 { #[verifier::external_body] fn uint_cast(value: u16) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<u16> for u128 { #[verifier::external_body] fn uint_checked_cast(value: u16) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<u16> for U128 { #[verifier::external_body] fn uint_cast(value: u16) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<u16> for U128 { #[verifier::external_body] fn uint_checked_cast(value: u16) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<u16> for U192 { #[verifier::external_body] fn uint_cast(value: u16) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<u16> for U192 { #[verifier::external_body] fn uint_checked_cast(value: u16) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<u16> for U256 { #[verifier::external_body] fn uint_cast(value: u16) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<u16> for U256 { #[verifier::external_body] fn uint_checked_cast(value: u16) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<u16> for U320 { #[verifier::external_body] fn uint_cast(value: u16) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<u16> for U320 { #[verifier::external_body] fn uint_checked_cast(value: u16) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<u16> for U384 { #[verifier::external_body] fn uint_cast(value: u16) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<u16> for U384 { #[verifier::external_body] fn uint_checked_cast(value: u16) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<u16> for U448 { #[verifier::external_body] fn uint_cast(value: u16) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<u16> for U448 { #[verifier::external_body] fn uint_checked_cast(value: u16) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<u16> for U512 { #[verifier::external_body] fn uint_cast(value: u16) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<u16> for U512 { #[verifier::external_body] fn uint_checked_cast(value: u16) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<u32> for u128 { #[verifier::external_body] fn uint_cast(value: u32) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<u32> for u128 { #[verifier::external_body] fn uint_checked_cast(value: u32) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<u32> for U128 { #[verifier::external_body] fn uint_cast(value: u32) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<u32> for U128 { #[verifier::external_body] fn uint_checked_cast(value: u32) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<u32> for U192 { #[verifier::external_body] fn uint_cast(value: u32) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<u32> for U192 { #[verifier::external_body] fn uint_checked_cast(value: u32) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<u32> for U256 { #[verifier::external_body] fn uint_cast(value: u32) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<u32> for U256 { #[verifier::external_body] fn uint_checked_cast(value: u32) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<u32> for U320 { #[verifier::external_body] fn uint_cast(value: u32) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<u32> for U320 { #[verifier::external_body] fn uint_checked_cast(value: u32) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<u32> for U384 { #[verifier::external_body] fn uint_cast(value: u32) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<u32> for U384 { #[verifier::external_body] fn uint_checked_cast(value: u32) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<u32> for U448 { #[verifier::external_body] fn uint_cast(value: u32) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<u32> for U448 { #[verifier::external_body] fn uint_checked_cast(value: u32) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<u32> for U512 { #[verifier::external_body] fn uint_cast(value: u32) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<u32> for U512 { #[verifier::external_body] fn uint_checked_cast(value: u32) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<u64> for u128 { #[verifier::external_body] fn uint_cast(value: u64) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<u64> for u128 { #[verifier::external_body] fn uint_checked_cast(value: u64) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<u64> for U128 { #[verifier::external_body] fn uint_cast(value: u64) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<u64> for U128 { #[verifier::external_body] fn uint_checked_cast(value: u64) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<u64> for U192 { #[verifier::external_body] fn uint_cast(value: u64) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<u64> for U192 { #[verifier::external_body] fn uint_checked_cast(value: u64) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<u64> for U256 { #[verifier::external_body] fn uint_cast(value: u64) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<u64> for U256 { #[verifier::external_body] fn uint_checked_cast(value: u64) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<u64> for U320 { #[verifier::external_body] fn uint_cast(value: u64) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<u64> for U320 { #[verifier::external_body] fn uint_checked_cast(value: u64) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<u64> for U384 { #[verifier::external_body] fn uint_cast(value: u64) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<u64> for U384 { #[verifier::external_body] fn uint_checked_cast(value: u64) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<u64> for U448 { #[verifier::external_body] fn uint_cast(value: u64) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<u64> for U448 { #[verifier::external_body] fn uint_checked_cast(value: u64) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<u64> for U512 { #[verifier::external_body] fn uint_cast(value: u64) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<u64> for U512 { #[verifier::external_body] fn uint_checked_cast(value: u64) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<u128> for U128 { #[verifier::external_body] fn uint_cast(value: u128) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<u128> for U128 { #[verifier::external_body] fn uint_checked_cast(value: u128) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<u128> for U192 { #[verifier::external_body] fn uint_cast(value: u128) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<u128> for U192 { #[verifier::external_body] fn uint_checked_cast(value: u128) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<u128> for U256 { #[verifier::external_body] fn uint_cast(value: u128) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<u128> for U256 { #[verifier::external_body] fn uint_checked_cast(value: u128) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<u128> for U320 { #[verifier::external_body] fn uint_cast(value: u128) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<u128> for U320 { #[verifier::external_body] fn uint_checked_cast(value: u128) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<u128> for U384 { #[verifier::external_body] fn uint_cast(value: u128) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<u128> for U384 { #[verifier::external_body] fn uint_checked_cast(value: u128) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<u128> for U448 { #[verifier::external_body] fn uint_cast(value: u128) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<u128> for U448 { #[verifier::external_body] fn uint_checked_cast(value: u128) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<u128> for U512 { #[verifier::external_body] fn uint_cast(value: u128) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<u128> for U512 { #[verifier::external_body] fn uint_checked_cast(value: u128) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<U128> for u8 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: u8) { unimplemented!() } }
impl UintCheckedCast<U128> for u8 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<u8, VString>) { unimplemented!() } }
impl UintCast<U128> for u16 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: u16) { unimplemented!() } }
impl UintCheckedCast<U128> for u16 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<u16, VString>) { unimplemented!() } }
impl UintCast<U128> for u32 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: u32) { unimplemented!() } }
impl UintCheckedCast<U128> for u32 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<u32, VString>) { unimplemented!() } }
impl UintCast<U128> for u64 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: u64) { unimplemented!() } }
impl UintCheckedCast<U128> for u64 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<u64, VString>) { unimplemented!() } }
impl UintCast<U128> for u128 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<U128> for u128 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<U128> for U192 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<U128> for U192 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<U128> for U256 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<U128> for U256 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<U128> for U320 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<U128> for U320 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<U128> for U384 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<U128> for U384 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<U128> for U448 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<U128> for U448 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<U128> for U512 { #[verifier::external_body] fn uint_cast(value: U128) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<U128> for U512 { #[verifier::external_body] fn uint_checked_cast(value: U128) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<U192> for u8 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: u8) { unimplemented!() } }
impl UintCheckedCast<U192> for u8 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<u8, VString>) { unimplemented!() } }
impl UintCast<U192> for u16 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: u16) { unimplemented!() } }
impl UintCheckedCast<U192> for u16 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<u16, VString>) { unimplemented!() } }
impl UintCast<U192> for u32 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: u32) { unimplemented!() } }
impl UintCheckedCast<U192> for u32 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<u32, VString>) { unimplemented!() } }
impl UintCast<U192> for u64 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: u64) { unimplemented!() } }
impl UintCheckedCast<U192> for u64 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<u64, VString>) { unimplemented!() } }
impl UintCast<U192> for u128 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<U192> for u128 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<U192> for U128 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<U192> for U128 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<U192> for U256 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<U192> for U256 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<U192> for U320 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<U192> for U320 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<U192> for U384 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<U192> for U384 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<U192> for U448 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<U192> for U448 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<U192> for U512 { #[verifier::external_body] fn uint_cast(value: U192) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<U192> for U512 { #[verifier::external_body] fn uint_checked_cast(value: U192) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<U256> for u8 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: u8) { unimplemented!() } }
impl UintCheckedCast<U256> for u8 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<u8, VString>) { unimplemented!() } }
impl UintCast<U256> for u16 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: u16) { unimplemented!() } }
impl UintCheckedCast<U256> for u16 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<u16, VString>) { unimplemented!() } }
impl UintCast<U256> for u32 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: u32) { unimplemented!() } }
impl UintCheckedCast<U256> for u32 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<u32, VString>) { unimplemented!() } }
impl UintCast<U256> for u64 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: u64) { unimplemented!() } }
impl UintCheckedCast<U256> for u64 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<u64, VString>) { unimplemented!() } }
impl UintCast<U256> for u128 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<U256> for u128 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<U256> for U128 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<U256> for U128 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<U256> for U192 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<U256> for U192 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<U256> for U320 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<U256> for U320 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<U256> for U384 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<U256> for U384 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<U256> for U448 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<U256> for U448 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<U256> for U512 { #[verifier::external_body] fn uint_cast(value: U256) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<U256> for U512 { #[verifier::external_body] fn uint_checked_cast(value: U256) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<U320> for u8 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: u8) { unimplemented!() } }
impl UintCheckedCast<U320> for u8 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<u8, VString>) { unimplemented!() } }
impl UintCast<U320> for u16 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: u16) { unimplemented!() } }
impl UintCheckedCast<U320> for u16 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<u16, VString>) { unimplemented!() } }
impl UintCast<U320> for u32 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: u32) { unimplemented!() } }
impl UintCheckedCast<U320> for u32 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<u32, VString>) { unimplemented!() } }
impl UintCast<U320> for u64 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: u64) { unimplemented!() } }
impl UintCheckedCast<U320> for u64 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<u64, VString>) { unimplemented!() } }
impl UintCast<U320> for u128 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<U320> for u128 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<U320> for U128 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<U320> for U128 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<U320> for U192 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<U320> for U192 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<U320> for U256 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<U320> for U256 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<U320> for U384 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<U320> for U384 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<U320> for U448 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<U320> for U448 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<U320> for U512 { #[verifier::external_body] fn uint_cast(value: U320) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<U320> for U512 { #[verifier::external_body] fn uint_checked_cast(value: U320) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<U384> for u8 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: u8) { unimplemented!() } }
impl UintCheckedCast<U384> for u8 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<u8, VString>) { unimplemented!() } }
impl UintCast<U384> for u16 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: u16) { unimplemented!() } }
impl UintCheckedCast<U384> for u16 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<u16, VString>) { unimplemented!() } }
impl UintCast<U384> for u32 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: u32) { unimplemented!() } }
impl UintCheckedCast<U384> for u32 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<u32, VString>) { unimplemented!() } }
impl UintCast<U384> for u64 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: u64) { unimplemented!() } }
impl UintCheckedCast<U384> for u64 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<u64, VString>) { unimplemented!() } }
impl UintCast<U384> for u128 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<U384> for u128 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<U384> for U128 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<U384> for U128 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<U384> for U192 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<U384> for U192 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<U384> for U256 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<U384> for U256 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<U384> for U320 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<U384> for U320 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<U384> for U448 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<U384> for U448 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<U384> for U512 { #[verifier::external_body] fn uint_cast(value: U384) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<U384> for U512 { #[verifier::external_body] fn uint_checked_cast(value: U384) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<U448> for u8 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: u8) { unimplemented!() } }
impl UintCheckedCast<U448> for u8 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<u8, VString>) { unimplemented!() } }
impl UintCast<U448> for u16 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: u16) { unimplemented!() } }
impl UintCheckedCast<U448> for u16 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<u16, VString>) { unimplemented!() } }
impl UintCast<U448> for u32 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: u32) { unimplemented!() } }
impl UintCheckedCast<U448> for u32 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<u32, VString>) { unimplemented!() } }
impl UintCast<U448> for u64 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: u64) { unimplemented!() } }
impl UintCheckedCast<U448> for u64 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<u64, VString>) { unimplemented!() } }
impl UintCast<U448> for u128 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<U448> for u128 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<U448> for U128 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<U448> for U128 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<U448> for U192 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<U448> for U192 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<U448> for U256 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<U448> for U256 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<U448> for U320 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<U448> for U320 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<U448> for U384 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<U448> for U384 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<U448> for U512 { #[verifier::external_body] fn uint_cast(value: U448) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<U448> for U512 { #[verifier::external_body] fn uint_checked_cast(value: U448) -> (r: Result<U512, VString>) { unimplemented!() } }
impl UintCast<U512> for u8 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: u8) { unimplemented!() } }
impl UintCheckedCast<U512> for u8 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<u8, VString>) { unimplemented!() } }
impl UintCast<U512> for u16 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: u16) { unimplemented!() } }
impl UintCheckedCast<U512> for u16 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<u16, VString>) { unimplemented!() } }
impl UintCast<U512> for u32 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: u32) { unimplemented!() } }
impl UintCheckedCast<U512> for u32 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<u32, VString>) { unimplemented!() } }
impl UintCast<U512> for u64 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: u64) { unimplemented!() } }
impl UintCheckedCast<U512> for u64 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<u64, VString>) { unimplemented!() } }
impl UintCast<U512> for u128 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: u128) { unimplemented!() } }
impl UintCheckedCast<U512> for u128 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<u128, VString>) { unimplemented!() } }
impl UintCast<U512> for U128 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<U512> for U128 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<U512> for U192 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<U512> for U192 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<U512> for U256 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<U512> for U256 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<U512> for U320 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<U512> for U320 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<U512> for U384 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<U512> for U384 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<U512> for U448 { #[verifier::external_body] fn uint_cast(value: U512) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<U512> for U448 { #[verifier::external_body] fn uint_checked_cast(value: U512) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<i32> for u128 { #[verifier::external_body] fn uint_cast(value: i32) -> (r: u128) { unimplemented!() } }
impl UintCast<i32> for U128 { #[verifier::external_body] fn uint_cast(value: i32) -> (r: U128) { unimplemented!() } }
impl UintCheckedCast<i32> for U128 { #[verifier::external_body] fn uint_checked_cast(value: i32) -> (r: Result<U128, VString>) { unimplemented!() } }
impl UintCast<i32> for U192 { #[verifier::external_body] fn uint_cast(value: i32) -> (r: U192) { unimplemented!() } }
impl UintCheckedCast<i32> for U192 { #[verifier::external_body] fn uint_checked_cast(value: i32) -> (r: Result<U192, VString>) { unimplemented!() } }
impl UintCast<i32> for U256 { #[verifier::external_body] fn uint_cast(value: i32) -> (r: U256) { unimplemented!() } }
impl UintCheckedCast<i32> for U256 { #[verifier::external_body] fn uint_checked_cast(value: i32) -> (r: Result<U256, VString>) { unimplemented!() } }
impl UintCast<i32> for U320 { #[verifier::external_body] fn uint_cast(value: i32) -> (r: U320) { unimplemented!() } }
impl UintCheckedCast<i32> for U320 { #[verifier::external_body] fn uint_checked_cast(value: i32) -> (r: Result<U320, VString>) { unimplemented!() } }
impl UintCast<i32> for U384 { #[verifier::external_body] fn uint_cast(value: i32) -> (r: U384) { unimplemented!() } }
impl UintCheckedCast<i32> for U384 { #[verifier::external_body] fn uint_checked_cast(value: i32) -> (r: Result<U384, VString>) { unimplemented!() } }
impl UintCast<i32> for U448 { #[verifier::external_body] fn uint_cast(value: i32) -> (r: U448) { unimplemented!() } }
impl UintCheckedCast<i32> for U448 { #[verifier::external_body] fn uint_checked_cast(value: i32) -> (r: Result<U448, VString>) { unimplemented!() } }
impl UintCast<i32> for U512 { #[verifier::external_body] fn uint_cast(value: i32) -> (r: U512) { unimplemented!() } }
impl UintCheckedCast<i32> for U512 { #[verifier::external_body] fn uint_checked_cast(value: i32) -> (r: Result<U512, VString>) { unimplemented!() } }
