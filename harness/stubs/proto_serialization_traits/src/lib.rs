pub use willow_ideal::{FromProto, ToProto};
