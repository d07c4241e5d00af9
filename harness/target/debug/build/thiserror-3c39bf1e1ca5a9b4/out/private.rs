#[doc(hidden)]
pub mod __private19 {
    #[doc(hidden)]
    pub use crate::private::*;
}
