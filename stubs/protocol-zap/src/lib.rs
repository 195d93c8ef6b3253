//! Offline stand-in for github.com/MeteoraAg/zap-program `protocol-zap` (the real crate cannot be fetched here).
//! It keeps the public surface that dynamic-bonding-curve uses. What the program asks it to validate is recorded,
//! and the answer is the one the harness configured, so a monitor can judge the program's side of the contract.

pub mod constants {
    /// Wrapped SOL and USDC
    pub const MINTS_DISALLOWED_TO_ZAP_OUT: [[u8; 32]; 2] = [
        // So11111111111111111111111111111111111111112
        [
            6, 155, 136, 87, 254, 171, 129, 132, 251, 104, 127, 99, 70, 24, 192, 53, 218, 196, 57,
            220, 26, 235, 59, 85, 152, 160, 240, 0, 0, 0, 0, 1,
        ],
        // EPjFWdd5AufqSSqeM2qN1xzybapC8G4wEGGkZwyTDt1v
        [
            198, 250, 122, 243, 190, 219, 173, 58, 61, 101, 243, 106, 171, 201, 116, 49, 177, 187,
            228, 194, 210, 246, 224, 228, 124, 166, 2, 3, 69, 47, 93, 97,
        ],
    ];
}

pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ProtozolZapError {
        MathOverflow,
        InvalidZapOutParameters,
        TypeCastFailed,
        MissingZapOutInstruction,
        InvalidWithdrawProtocolFeeZapAccounts,
        MintRestrictedFromZap,
        CpiDisabled,
        InvalidZapAccounts,
    }
}

pub mod utils {
    use super::error::ProtozolZapError;
    use std::cell::RefCell;

    /// One request for validation, as the program made it.
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ZapRequest {
        pub amount: u64,
        pub program_id: [u8; 32],
        pub receiver: [u8; 32],
        pub receiver_data: Vec<u8>,
        pub sysvar_data: Vec<u8>,
        pub treasury: [u8; 32],
        pub paired_destination: [u8; 32],
    }

    thread_local! {
        pub static REQUESTS: RefCell<Vec<ZapRequest>> = const { RefCell::new(Vec::new()) };
        pub static ANSWER: RefCell<Result<(), ProtozolZapError>> = const { RefCell::new(Ok(())) };
    }

    pub fn validate_zap_out_to_treasury(
        amount: u64,
        program_id: &[u8; 32],
        receiver: &[u8; 32],
        receiver_data: &[u8],
        sysvar_data: &[u8],
        treasury: &[u8; 32],
        paired_destination: &[u8; 32],
    ) -> Result<(), ProtozolZapError> {
        REQUESTS.with(|r| {
            r.borrow_mut().push(ZapRequest {
                amount,
                program_id: *program_id,
                receiver: *receiver,
                receiver_data: receiver_data.to_vec(),
                sysvar_data: sysvar_data.to_vec(),
                treasury: *treasury,
                paired_destination: *paired_destination,
            })
        });
        ANSWER.with(|a| *a.borrow())
    }
}
