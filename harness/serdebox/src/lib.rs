pub use {serde, serde_derive, serde_json};
