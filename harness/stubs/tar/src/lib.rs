//! STUB of tar: llamapun declares it but does not use it.
