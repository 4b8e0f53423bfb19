pub mod draw;
pub mod gens;
pub mod props;
pub mod refqr;
pub mod run;
pub mod selftest;
