pub mod apart;
pub mod deep;
pub mod fuse;
pub mod graphs;
pub mod keys;
pub mod lazy;
pub mod making;
pub mod mon;
pub mod multi;
pub mod node;
pub mod res;
pub mod serial;
pub mod share;
pub mod sim;
pub mod simcheck;
pub mod tangle;
pub mod target;
