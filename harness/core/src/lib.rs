pub mod dec;
pub mod enc;
pub mod run;
pub mod space;
pub mod trees;
pub mod val;
pub mod big;
pub mod dm;
pub mod types;
