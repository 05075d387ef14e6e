pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c16;
pub mod c15;
pub mod c13;
pub mod c17;
pub mod sched;
pub mod steps;
pub mod c14;
pub mod c07;
pub mod c10;
pub mod c09;
pub mod common;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c08;
pub mod c11;
pub mod c19;
pub use mc::dm;
pub mod docs;
pub use mc::types;
