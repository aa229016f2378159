pub mod dao;
pub mod gov;
pub mod rewards;
pub mod srew;
pub mod pay;
pub mod stake;
pub mod issuer;
pub mod swap;
pub mod fund;
pub mod core;
pub mod roles;
pub mod approval;
pub mod condorcet;
pub mod fresh;
pub mod v1;
