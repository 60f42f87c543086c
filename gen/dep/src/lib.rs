//! Makes cargo build gecs with chosen features.
