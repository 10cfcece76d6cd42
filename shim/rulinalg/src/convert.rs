//! (conversions live beside the types)
