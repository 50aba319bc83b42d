//! Stand-in for Oak's `oak_attestation` (named by TCP, nothing of it is used).
