//! Old encodings of an evolving struct decode to the documented value; encoding uses the current layout.
use crate::model::*;
crate::structs!(evolves;);
