pub mod prelude {
    pub use willow_ideal::{Parse, Serialize};
}
pub use willow_ideal::{ParseError, SerializeError};
