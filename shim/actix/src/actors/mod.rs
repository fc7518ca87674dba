//! Helper actors

pub mod mocker;
