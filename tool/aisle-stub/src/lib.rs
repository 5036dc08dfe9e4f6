//! Signature-only stub of `aisle`; nothing here is ever executed.
#![allow(unused_variables, async_fn_in_trait, clippy::all)]
use std::collections::HashMap;
use std::future::Future;

use arrow_array::{BooleanArray, RecordBatch};
use arrow_schema::{ArrowError, Schema, SchemaRef};
use datafusion_common::ScalarValue;
use parquet::arrow::arrow_reader::{ArrowPredicate, RowSelection};
use parquet::arrow::ProjectionMask;
use parquet::bloom_filter::Sbbf;
use parquet::file::metadata::ParquetMetaData;
use parquet::schema::types::SchemaDescriptor;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CmpOp { Eq, NotEq, Lt, LtEq, Gt, GtEq }

#[non_exhaustive]
#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    True,
    False,
    Cmp { column: String, op: CmpOp, value: ScalarValue },
    Between { column: String, low: ScalarValue, high: ScalarValue, inclusive: bool },
    InList { column: String, values: Vec<ScalarValue> },
    BloomFilterEq { column: String, value: ScalarValue },
    BloomFilterInList { column: String, values: Vec<ScalarValue> },
    StartsWith { column: String, prefix: String },
    IsNull { column: String, negated: bool },
    And(Vec<Expr>),
    Or(Vec<Expr>),
    Not(Box<Expr>),
}

impl Expr {
    pub fn eq(column: impl Into<String>, value: ScalarValue) -> Self { unimplemented!() }
    pub fn not_eq(column: impl Into<String>, value: ScalarValue) -> Self { unimplemented!() }
    pub fn lt(column: impl Into<String>, value: ScalarValue) -> Self { unimplemented!() }
    pub fn lt_eq(column: impl Into<String>, value: ScalarValue) -> Self { unimplemented!() }
    pub fn gt(column: impl Into<String>, value: ScalarValue) -> Self { unimplemented!() }
    pub fn gt_eq(column: impl Into<String>, value: ScalarValue) -> Self { unimplemented!() }
    pub fn between(column: impl Into<String>, low: ScalarValue, high: ScalarValue, inclusive: bool) -> Self { unimplemented!() }
    pub fn in_list(column: impl Into<String>, values: Vec<ScalarValue>) -> Self { unimplemented!() }
    pub fn starts_with(column: impl Into<String>, prefix: impl Into<String>) -> Self { unimplemented!() }
    pub fn is_null(column: impl Into<String>) -> Self { unimplemented!() }
    pub fn is_not_null(column: impl Into<String>) -> Self { unimplemented!() }
    pub fn and(children: Vec<Expr>) -> Self { unimplemented!() }
    pub fn or(children: Vec<Expr>) -> Self { unimplemented!() }
    #[allow(clippy::should_implement_trait)]
    pub fn not(child: Expr) -> Self { unimplemented!() }
}

pub trait AsyncBloomFilterProvider {
    fn bloom_filter(&mut self, row_group_idx: usize, column_idx: usize) -> impl Future<Output = Option<Sbbf>> + '_;
    fn bloom_filters_batch<'a>(&'a mut self, requests: &'a [(usize, usize)]) -> impl Future<Output = HashMap<(usize, usize), Sbbf>> + 'a;
}

pub struct PruneResult { _p: () }
impl PruneResult {
    pub fn row_groups(&self) -> &[usize] { unimplemented!() }
    pub fn row_selection(&self) -> Option<&RowSelection> { unimplemented!() }
}

pub struct Pruner { _p: () }
impl Pruner {
    pub fn try_new(schema: SchemaRef) -> Result<Self, ArrowError> { unimplemented!() }
    pub async fn prune_ir_with_bloom_provider<P: AsyncBloomFilterProvider>(&self, metadata: &ParquetMetaData, predicates: &[Expr], provider: &mut P) -> PruneResult { unimplemented!() }
}

pub struct PruneRequest<'a> { _p: std::marker::PhantomData<&'a ()> }
impl<'a> PruneRequest<'a> {
    pub fn new(metadata: &'a ParquetMetaData, schema: &'a Schema) -> Self { unimplemented!() }
    pub fn with_predicate(self, predicate: &'a Expr) -> Self { unimplemented!() }
    pub fn enable_page_index(self, enable: bool) -> Self { unimplemented!() }
    pub fn enable_bloom_filter(self, enable: bool) -> Self { unimplemented!() }
    pub async fn prune_async<P: AsyncBloomFilterProvider>(self, provider: &mut P) -> PruneResult { unimplemented!() }
}

pub struct RowFilter { _p: () }
impl RowFilter {
    pub fn new(predicate: Expr, schema: &SchemaDescriptor) -> Self { unimplemented!() }
}
impl ArrowPredicate for RowFilter {
    fn projection(&self) -> &ProjectionMask { unimplemented!() }
    fn evaluate(&mut self, batch: RecordBatch) -> Result<BooleanArray, ArrowError> { unimplemented!() }
}
