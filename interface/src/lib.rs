//! Nothing: the programs are in src/bin.
