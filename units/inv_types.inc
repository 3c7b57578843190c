// ---- identifiers of messages
#[verifier::external_body] #[derive(Clone, Copy)] pub struct MessageId { _b: [u8; 32] }
//@struct io/src/lib.rs InvariantConfig
//@enum src/contracts/storage/awaiting_transfers.rs TransferType copy
//@struct src/contracts/storage/awaiting_transfers.rs AwaitingTransfer
//@struct src/invariant_storage.rs Invariant
