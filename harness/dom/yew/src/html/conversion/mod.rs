mod into_prop_value;
pub use into_prop_value::*;
