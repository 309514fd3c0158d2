//! Copies, comparisons, prints and drops of answers, compiled with instrumentation.
#![allow(dropping_copy_types)]
use std::fmt::Debug;

pub trait Value: Debug + Clone + PartialEq + 'static {
    fn copy(&self) -> Self;
    fn same(&self, other: &Self) -> bool;
    fn print(&self) -> String;
    fn free(self);
}

macro_rules! values {
    ($($t:ty)*) => {$(
        impl Value for $t {
            #[inline(never)]
            fn copy(&self) -> Self {
                self.clone()
            }
            #[inline(never)]
            fn same(&self, other: &Self) -> bool {
                *self == *other
            }
            #[inline(never)]
            fn print(&self) -> String {
                format!("{:?}", self)
            }
            #[inline(never)]
            fn free(self) {
                drop(self)
            }
        }
    )*};
}
use nom_sparql::{operations, query, update};
values! {
    query::SparqlQueryStatement query::SparqlQuery query::ask::AskQuery query::construct::ConstructQuery
    query::describe::DescribeQuery query::construct::SubConstruct query::construct::SubTriples
    update::Update operations::AddStatement operations::MoveStatement
}
